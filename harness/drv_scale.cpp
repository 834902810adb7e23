// P36: memory and work needed by a call grow in proportion to the size of the mesh.
// Built with -fsanitize-coverage=trace-pc: the work is the number of blocks of code executed, not a time.
#include <malloc.h>

#include <csetjmp>
#include <cstdlib>
#include <new>

#include "oracles.h"
using namespace vf;

static bool armed = false;
static long live = 0, peak = 0;
static unsigned long enough = ~0ul;
static jmp_buf back;
static unsigned long work = 0, asked = 0;  // blocks of code executed, bytes allocated altogether

extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() {
  // Far beyond what is allowed: no need to wait for the end
  if ((work += armed) > enough) {
    enough = ~0ul;
    armed = false;
    longjmp(back, 1);
  }
}

static void *give(std::size_t n, std::size_t al = 1) {
  void *p = nullptr;
  if (al <= alignof(std::max_align_t))
    p = std::malloc(n ? n : 1);
  else if (posix_memalign(&p, al, n ? n : 1) != 0)
    p = nullptr;
  if (!p) throw std::bad_alloc();
  if (armed) asked += n;
  live += static_cast<long>(malloc_usable_size(p));
  peak = std::max(peak, live);
  return p;
}
static void take(void *p) noexcept {
  if (!p) return;
  live -= static_cast<long>(malloc_usable_size(p));
  std::free(p);
}
void *operator new(std::size_t n) { return give(n); }
void *operator new[](std::size_t n) { return give(n); }
void *operator new(std::size_t n, std::align_val_t a) { return give(n, static_cast<std::size_t>(a)); }
void operator delete(void *p) noexcept { take(p); }
void operator delete[](void *p) noexcept { take(p); }
void operator delete(void *p, std::size_t) noexcept { take(p); }
void operator delete[](void *p, std::size_t) noexcept { take(p); }
void operator delete(void *p, std::align_val_t) noexcept { take(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { take(p); }

static long start = 0;
/** The measured part */
struct Armed {
  Armed() {
    start = peak = live;
    work = asked = 0;
    armed = true;
  }
  ~Armed() { armed = false; }
};

#include "task.h"

/** The same kind of mesh with about n cells */
static Mesh similar(int fam, long n, uint64_t s) {
  Rng r(s);
  const double hy = r.pick(std::vector<double>{1., 0.25, 0.125});
  auto side = [&](double k) { return std::max(2L, std::lround(k)); };
  Mesh m;
  switch (fam) {
    case 0: {
      const long q = side(std::sqrt(static_cast<double>(n)));
      m = cartesian(2, spacing(r, q, 0, 1.), spacing(r, q, 0, hy), {1.}, false, {});
      break;
    }
    case 1: {
      const long q = side(std::cbrt(static_cast<double>(n)));
      m = cartesian(3, spacing(r, q, 0, 1.), spacing(r, q, 0, hy), spacing(r, q, 0, 1.), false, {});
      break;
    }
    case 2: {
      const long q = side(std::sqrt(static_cast<double>(n) / 1.5));
      m = triangulated(r, q, q, 0.5, 1., spacing(r, q, 0, hy));
      break;
    }
    case 3: {  // with holes: isolated cells and small parts
      const long q = side(std::sqrt(static_cast<double>(n) * 1.7));
      std::vector<char> hole(q * q, 0);
      for (auto &x : hole) x = r.chance(0.4);
      hole[0] = 0;
      m = cartesian(2, spacing(r, q, 0, 1.), spacing(r, q, 0, hy), {1.}, false, hole);
      break;
    }
    case 4:  // few long columns
      m = cartesian(2, spacing(r, 8, 0, 1.), spacing(r, n / 8, 0, hy), {1.}, false, {});
      break;
    case 5:  // many short ones
      m = cartesian(2, spacing(r, n / 8, 0, 1.), spacing(r, 8, 0, hy), {1.}, false, {});
      break;
    default:
      m = abstract_graph(r, 2, std::vector<int>{0, 1, 4, 7}[fam - 6], n);
  }
  set_priorities(m, r);
  if (s % 2) {
    std::vector<Ix> perm(m.n());
    std::iota(perm.begin(), perm.end(), 0);
    r.shuffle(perm);
    renumber(m, perm);
  }
  return m;
}

/** Lines of about the given number of cells all over the mesh */
static void given(Rng &r, const Mesh &m, long length, Params &p) {
  std::vector<char> used(m.n(), 0);
  p.lidx.push_back(0);
  for (Ix i = 0; i < m.n(); ++i) {
    Ix c = i;
    if (used[i] || r.chance(0.3)) continue;
    for (long k = 0; k < length; ++k) {
      used[c] = 1;
      p.lines.push_back(c);
      for (Ix e = m.idx[c]; e < m.idx[c + 1] && used[c]; ++e)
        if (!used[m.adj[e]]) c = m.adj[e];
      if (used[c]) break;
    }
    p.lidx.push_back(p.lines.size());
  }
}

static void one(Rng &r, Ctx &c, uint64_t, long no) {
  const int fam = static_cast<int>(no % 10);
  const uint64_t s = static_cast<uint64_t>(r.in(1, 1000000000));
  Task t;
  ParamOpt po;
  po.max_iter = 1;
  po.max_card = 9;
  const Mesh first = similar(fam, 200, s);
  t.p = gen_params(r, first, po);
  if (t.p.max > 14) t.p.goal = t.p.min = 4, t.p.max = 6, t.p.sing = std::min(t.p.sing, 3);
  if (r.chance(0.1) && t.p.max < 8) t.p.fc_iter = 2;
  t.kind = static_cast<int>(r.chance(0.8) ? r.in(0, 1) : r.in(2, 4));
  for (int k = 0; k < 3; ++k) t.faces.insert(static_cast<int>(r.in(1, 7)));
  const uint64_t s2 = static_cast<uint64_t>(r.in(1, 1000000000));
  const long length = r.in(2, 9);
  const long far = r.chance(0.3) ? 0 : r.in(1, 20);  // one cell out of so many is at the wall, 0: a single one
  long mem[2];
  unsigned long wrk[2], all[2];
  double size[2];
  for (int k = 0; k < 2; ++k) {
    t.m = similar(fam, (k ? VF_LARGE : VF_SMALL) * (no % 100 < 10 ? 2 : 1), s);
    Rng q(s2);
    t.p.compliant.clear();
    t.p.lidx.clear();
    t.p.lines.clear();
    t.wall.clear();
    for (Ix i = 0; i < t.m.n(); ++i) {
      if (t.p.aniso) t.p.compliant.push_back(i);
      if (far ? q.in(1, far) == 1 : i == 0) t.wall.push_back(i);
    }
    if (t.p.aniso && !t.p.build) given(q, t.m, length, t.p);
    if (t.kind == 2) {
      t.f2c.resize(t.m.n());
      for (Ix i = 0; i < t.m.n(); ++i) t.f2c[i] = i / 4;
    }
    Out o;
    size[k] = static_cast<double>(t.m.n() + t.m.adj.size());
    if (k) enough = static_cast<unsigned long>(8. * size[1] / size[0] * static_cast<double>(wrk[0] + 10000));
    if (setjmp(back) == 0) t.run(o);
    enough = ~0ul;
    mem[k] = peak - start;
    wrk[k] = work;
    all[k] = asked;
  }
  const double by = size[1] / size[0], by_mem = static_cast<double>(mem[1]) / static_cast<double>(std::max(mem[0], 1L)),
               by_work = static_cast<double>(wrk[1]) / static_cast<double>(std::max(wrk[0], 1ul)),
               by_all = static_cast<double>(all[1]) / static_cast<double>(std::max(all[0], 1ul));
  const double limit = (t.kind < 2 && t.p.aniso ? 4. : 2.) * by;
  const std::string what = KINDS[t.kind];
  auto desc = [&](const char *w, double f, double a, double b) {
    std::ostringstream o;
    o << w << " grows " << f << " times (" << a << " to " << b << ") when the mesh grows " << by << " times | " << what
      << " family " << fam << " numbering " << s % 2 << " cells " << t.m.n() << " | " << t.p.desc().substr(0, 160);
    return o.str();
  };
  c.count("calls_" + what, 2);
  c.count("family_" + std::to_string(fam));
  if (t.kind < 2) c.count(!t.p.aniso ? "isotropic" : t.p.build ? "lines_built" : "lines_given");
  if (t.kind < 2 && t.p.corr) c.count("with_correction");
  c.require(wrk[0] > 0 && wrk[1] > 0, "nothing-measured", [&] { return desc("work", by_work, wrk[0], wrk[1]); });
  c.require(by_mem <= 3. * by, "memory-" + what, [&] { return desc("peak of memory", by_mem, mem[0], mem[1]); });
  c.require(by_work <= limit, "work-" + what, [&] { return desc("work", by_work, wrk[0], wrk[1]); });
  // Filling or copying memory is work that the blocks of code do not show
  c.require(by_all <= limit, "allocations-" + what, [&] { return desc("memory allocated altogether", by_all, all[0], all[1]); });
  Hash h;
  c.nontrivial(h.add(s).add(fam).add(t.p.hash()).h);
  c.sample(desc("work", by_work, wrk[0], wrk[1]));
}

int main(int argc, char **argv) { return driver_main(argc, argv, 36, one); }
