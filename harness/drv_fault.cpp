// P35: a call during which memory runs out ends with std::bad_alloc, without leak, crash or after-effect.
// Every allocation of the process goes through the operators below, which can refuse the chosen one.
#include <cstdlib>
#include <new>

#include "oracles.h"
using namespace vf;

static long live = 0;                       // blocks in use
static long asked = 0;                      // allocations since armed
static long refuse_at = 0;                  // 0: none
static bool armed = false, for_good = false;  // for_good: all the following ones are refused too
static long refused = 0;

static void *give(std::size_t n, std::size_t al) {
  if (armed) {
    ++asked;
    if (refuse_at > 0 && (asked == refuse_at || (for_good && asked > refuse_at))) {
      ++refused;
      return nullptr;
    }
  }
  void *p = nullptr;
  if (al <= alignof(std::max_align_t))
    p = std::malloc(n ? n : 1);
  else if (posix_memalign(&p, al, n ? n : 1) != 0)
    p = nullptr;
  if (p) ++live;
  return p;
}
static void *or_throw(std::size_t n, std::size_t al = 1) {
  void *p = give(n, al);
  if (!p) throw std::bad_alloc();
  return p;
}
static void take(void *p) noexcept {
  if (!p) return;
  --live;
  std::free(p);
}
void *operator new(std::size_t n) { return or_throw(n); }
void *operator new[](std::size_t n) { return or_throw(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return give(n, 1); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return give(n, 1); }
void *operator new(std::size_t n, std::align_val_t a) { return or_throw(n, static_cast<std::size_t>(a)); }
void *operator new[](std::size_t n, std::align_val_t a) { return or_throw(n, static_cast<std::size_t>(a)); }
void operator delete(void *p) noexcept { take(p); }
void operator delete[](void *p) noexcept { take(p); }
void operator delete(void *p, std::size_t) noexcept { take(p); }
void operator delete[](void *p, std::size_t) noexcept { take(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { take(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { take(p); }
void operator delete(void *p, std::align_val_t) noexcept { take(p); }
void operator delete[](void *p, std::align_val_t) noexcept { take(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { take(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { take(p); }

/** The call under test, only its own allocations being counted */
struct Armed {
  Armed() { armed = true; }
  ~Armed() { armed = false; }
};

#include "task.h"

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = r.chance(0.3) ? r.in(2, 9) : r.in(10, 60);
  Task t;
  t.m = gen_mesh(r, go);
  if (t.m.n() == 0) return;
  ParamOpt po;
  po.max_iter = 2;
  t.p = gen_params(r, t.m, po);
  t.kind = static_cast<int>(r.chance(0.7) ? r.in(0, 1) : r.in(2, 4));
  if (t.kind == 2) t.f2c = call(t.m, t.p).f2c;
  for (Ix i = 0; i < t.m.n(); ++i)
    if (r.chance(0.2)) t.wall.push_back(i);
  for (int k = 0; k < 3; ++k) t.faces.insert(static_cast<int>(r.in(1, 7)));
  const Task before = t;
  const std::string what = KINDS[t.kind];
  auto desc = [&](long k) {
    return " | " + what + ", allocation " + std::to_string(k) + (for_good ? " and all the following" : "") + " refused | "
         + t.p.desc() + " | " + t.m.full();
  };
  Out want;
  asked = 0;
  refuse_at = 0;
  t.run(want);
  const long total = asked;
  c.count("calls_" + what);
  std::set<long> at;
  if (total <= 150 || (total <= 700 && r.chance(0.1))) {
    for (long k = 1; k <= total; ++k) at.insert(k);
    c.count("all_points");
  } else {
    for (int q = 0; q < 4; ++q) at.insert(r.in(1, 20)), at.insert(total - r.in(0, 19));
    for (int q = 0; q < 16; ++q) at.insert(r.in(1, total));
  }
  for (long k : at) {
    for_good = r.chance(0.3);
    std::string how;
    bool equal = true;
    long left = 0;
    // A leak grows with each failure; memory kept for later use (a cache) does not
    for (int again = 0; again < 4; ++again) {
      const long was = live;
      {
        Out got;
        asked = refused = 0;
        refuse_at = k;
        int end = 0;  // kept out of the string so that nothing else is allocated meanwhile
        try {
          t.run(got);
        } catch (const std::bad_alloc &) {
          end = 1;
        } catch (const std::exception &) {
          end = 2;
        }
        refuse_at = 0;
        if (end == 0) equal = got == want;
        how = end == 0 ? "returned" : end == 1 ? "bad_alloc" : "other";
      }
      left = live - was;
      if (left <= 0 || !equal || how == "other" || refused == 0) break;
    }
    if (refused == 0) {
      c.count("not_reached");
      continue;
    }
    c.count(how);
    c.count("refusals_" + what);
    if (for_good) c.count("refused_for_good");
    if (!c.require(how != "other", "other-exception", [&] { return "another exception than bad_alloc" + desc(k); })) return;
    if (!c.require(equal, "wrong-result", [&] { return "returned with another result" + desc(k); })) return;
    if (!c.require(left <= 0, "leak", [&] { return std::to_string(left) + " blocks of memory not given back" + desc(k); })) return;
  }
  for_good = false;
  // Nothing must be left of the failures
  if (!c.require(t.m.idx == before.m.idx && t.m.adj == before.m.adj && t.m.w == before.m.w && t.m.vol == before.m.vol
                   && t.m.ctr == before.m.ctr && t.m.prio == before.m.prio && t.m.nb == before.m.nb
                   && t.p.compliant == before.p.compliant && t.f2c == before.f2c && t.wall == before.wall
                   && t.faces == before.faces,
                 "inputs-changed", [&] { return "inputs changed by a call that failed" + desc(0); }))
    return;
  Out again;
  t.run(again);
  c.require(again == want, "later-result", [&] { return "another result after calls that failed" + desc(0); });
  Hash h;
  c.nontrivial(h.add(mesh_hash(t.m)).add(t.p.hash()).add(t.kind).h);
  if (t.m.n() > 3 && t.m.n() < 12) c.sample(what + ": " + std::to_string(total) + " allocations, " + std::to_string(at.size()) + " refused one at a time | " + t.p.desc() + " | " + t.m.desc());
}

int main(int argc, char **argv) { return driver_main(argc, argv, 35, one); }
