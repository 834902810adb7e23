// Properties about several related calls:
// P07 repeated coarsening, P10 repeatability, P16 units/position/listing order,
// P17 normalisation of tuning values, P23 other types.
#include <sys/wait.h>

#include "levels.h"
using namespace vf;

static std::string both(const Mesh &m, const Params &p, const Result &a, const Result &b, const std::string &w) {
  return w + " | " + p.desc() + " | first " + a.desc() + " | second " + b.desc() + " | " + m.full();
}

static bool grouped(const Result &r) {
  std::set<Ix> s(r.f2c.begin(), r.f2c.end());
  return s.size() < r.f2c.size();
}

#if VF_PROP == 7
static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 150);
  go.aniso = r.chance(0.4);
  const Mesh m0 = gen_mesh(r, go);
  if (m0.n() < 2) return;
  ParamOpt po;
  po.max_iter = 2;
  const Params p0 = gen_params(r, m0, po);
  Mesh m = m0;
  Params p = p0;
  std::vector<Ix> comp(m0.n());
  std::iota(comp.begin(), comp.end(), 0);
  Hash h;
  h.add(mesh_hash(m0)).add(p0.hash());
  long lvl = 0;
  const bool again = r.chance(0.5);  // new parameters at each level
  for (; lvl < 14 && m.n() > 1; ++lvl) {
    const Result res = call(m, p);
    c.count("levels");
    if (!check_partition(c, m, p, res, "level-") || !check_connected(c, m, p, res, "level-")) return;
    if (!p.corr && !check_cardinality(c, m, p, res, "level-")) return;
    if (p.aniso) {
      if (!check_line_format(c, m, p, res, "level-")) return;
      if (lvl > 0 && p.lidx.size() > 1 && !p.lines.empty()) {
        std::vector<std::vector<Ix>> fl;
        for (size_t l = 0; l + 1 < p.lidx.size(); ++l)
          fl.emplace_back(p.lines.begin() + p.lidx[l], p.lines.begin() + p.lidx[l + 1]);
        c.count("levels_with_given_lines");
        if (!check_line_agglomeration(c, m, p, fl, res, "level-")) return;
      }
    }
    Mesh k = coarsen(m, res.f2c);
    // What is carried over, recomputed from the finest mesh
    for (auto &x : comp) x = res.f2c[x];
    const auto g = groups(comp);
    if (!c.require(g.size() == k.n(), "coarse-size", [&] { return ctx_msg(m, p, res, "coarse graph of " + std::to_string(k.n()) + " cells"); }))
      return;
    double tot = 0;
    for (double v : m0.vol) tot += v;
    for (size_t q = 0; q < g.size(); ++q) {
      double v = 0;
      int nb = 0;
      double pr = -INFINITY;
      for (Ix f : g[q]) {
        v += m0.vol[f];
        nb = std::max(nb, m0.nb[f]);
        pr = std::max(pr, m0.prio[f]);
      }
      if (!c.require(std::fabs(v - k.vol[q]) <= 1e-9 * tot, "volume", [&] { return ctx_msg(m, p, res, "volume of coarse cell " + std::to_string(q)); }))
        return;
      if (!c.require(nb == k.nb[q] && pr == k.prio[q], "boundary", [&] { return ctx_msg(m, p, res, "boundary faces or priority of coarse cell " + std::to_string(q)); }))
        return;
      if (!c.require(connected(m0, g[q]), "composition", [&] {
            return ctx_msg(m0, p0, res, "level " + std::to_string(lvl) + ": cells " + str(g[q]) + " of the finest mesh are not connected");
          }))
        return;
    }
    h.addv(comp);
    const bool stuck = k.n() == m.n();
    const auto lidx = res.lidx, lines = res.lines;
    m = std::move(k);
    if (again) {
      const Params old = p;
      p = gen_params(r, m, po);
      p.aniso = old.aniso;
      p.maxline = old.maxline;
      p.odd = old.odd;
    }
    p.compliant.clear();
    p.lidx.clear();
    p.lines.clear();
    if (p.aniso) {
      p.build = false;
      p.lidx = lidx;
      p.lines = lines;
      if (r.chance(0.5)) {
        p.compliant.resize(m.n());
        std::iota(p.compliant.begin(), p.compliant.end(), 0);
      }
    }
    if (stuck && !again) break;
  }
  if (m.n() == 1) c.count("down_to_one_cell");
  if (lvl > 1) {
    c.nontrivial(h.h);
    if (m0.n() < 16) c.sample(p0.desc() + " | " + m0.desc() + " adj=" + str(m0.adj) + " levels=" + std::to_string(lvl) + " last=" + str(comp));
  }
}

#elif VF_PROP == 10
/** Calls that must not matter to the next one */
static void noise(Rng &r, std::vector<std::unique_ptr<char[]>> &heap) {
  for (long q = r.in(0, 3); q > 0; --q) {
    GenOpt go;
    go.max_n = 20;
    const Mesh m = gen_mesh(r, go);
    Params p = gen_params(r, m);
    if (r.chance(0.2)) p.goal = 1;  // a call that fails
    if (r.chance(0.1)) p.ar = 77;
    try {
      call(m, p);
    } catch (const std::invalid_argument &) {
    }
  }
  for (long q = r.in(0, 40); q > 0; --q) {
    heap.emplace_back(new char[static_cast<size_t>(r.in(1, 600))]);
    if (heap.size() > 60) heap.erase(heap.begin() + r.in(0, 59));
  }
}

#ifdef VF_FRESH
/** The calls in a process of their own, where the library was never used before; only the last one is kept */
static Result in_new_process(Ctx &c, const std::vector<std::pair<Mesh, Params>> &calls, bool &ok) {
  int fd[2];
  std::fflush(nullptr);
  if (pipe(fd) != 0) _exit(3);
  const pid_t pid = fork();
  if (pid < 0) _exit(3);
  if (pid == 0) {
    close(fd[0]);
    std::vector<Ix> out{0};
    try {
      for (size_t k = 0; k < calls.size(); ++k) {
        Result r;
        try {
          r = call(calls[k].first, calls[k].second);
        } catch (const std::invalid_argument &) {
          if (k + 1 == calls.size()) throw;
        }
        if (k + 1 == calls.size()) {
          for (const auto *v : {&r.f2c, &r.lidx, &r.lines}) {
            out.push_back(v->size());
            out.insert(out.end(), v->begin(), v->end());
          }
        }
      }
    } catch (const std::exception &) {
      out = {1};
    }
    const char *d = reinterpret_cast<const char *>(out.data());
    for (size_t left = out.size() * sizeof(Ix); left > 0;) {
      const ssize_t n = write(fd[1], d, left);
      if (n <= 0) _exit(3);
      d += n;
      left -= static_cast<size_t>(n);
    }
    _exit(0);
  }
  close(fd[1]);
  std::vector<char> raw;
  char buf[65536];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) raw.insert(raw.end(), buf, buf + n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  // The report of the sanitizer is already in our output
  if (st != 0) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 99);
  std::vector<Ix> in(raw.size() / sizeof(Ix));
  std::memcpy(in.data(), raw.data(), in.size() * sizeof(Ix));
  ok = !in.empty() && in[0] == 0;
  Result r;
  size_t at = 1;
  if (ok)
    for (auto *v : {&r.f2c, &r.lidx, &r.lines}) {
      const size_t k = in.at(at++);
      v->assign(in.begin() + static_cast<long>(at), in.begin() + static_cast<long>(at + k));
      at += k;
    }
  c.count("processes");
  return r;
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 60);
  const Mesh m = gen_mesh(r, go);
  const Params p = gen_params(r, m);
  std::vector<std::pair<Mesh, Params>> before;
  for (long q = r.in(1, 4); q > 0; --q) {
    GenOpt g2;
    g2.max_n = 30;
    const Mesh o = r.chance(0.3) ? m : gen_mesh(r, g2);
    Params x = gen_params(r, o);
    if (m.n() > 300) x.fc_iter = 1;
    if (r.chance(0.1)) x.goal = 1;  // a call that fails
    before.push_back({o, x});
  }
  bool ok = true;
  const Result a = in_new_process(c, {{m, p}}, ok);
  if (!c.require(ok, "fresh-exception", [&] { return "exception in a new process | " + p.desc() + " | " + m.full(); })) return;
  before.push_back({m, p});
  const Result b = in_new_process(c, before, ok);
  if (!c.require(ok, "history-exception", [&] { return "exception after other calls | " + p.desc() + " | " + m.full(); })) return;
  if (!c.require(a == b, "history", [&] {
        std::string h;
        for (const auto &[o, x] : before) h += " / " + x.desc() + " on " + o.desc();
        return both(m, p, a, b, "first call of a process and the same call after others differ") + " | others" + h;
      }))
    return;
  if (m.n() > 1 && grouped(a)) {
    Hash h;
    c.nontrivial(h.add(mesh_hash(m)).add(p.hash()).h);
  }
}
#else
static void one(Rng &r, Ctx &c, uint64_t, long) {
  using namespace comma;
  GenOpt go;
  go.max_n = big_or(r, 60);
  const Mesh m = gen_mesh(r, go);
  const Params p = gen_params(r, m);
  const Result a = call(m, p);
  std::vector<std::unique_ptr<char[]>> heap;
  const Mesh in = m;
  // Outputs as found by the next calls
  auto junk = [&](size_t k) {
    std::vector<Ix> v(k);
    for (auto &x : v) x = r.chance(0.3) ? ~0UL : static_cast<Ix>(r.in(0, 50));
    return v;
  };
  // A null line-length limit and so on belong to P17; only valid values here
  for (int how = 0; how < 3; ++how) {
    noise(r, heap);
    Result init;
    if (how > 0) {
      init.f2c = junk(static_cast<size_t>(r.in(0, 2 * static_cast<long>(m.n()))));
      if (!p.aniso || p.build) {
        init.lidx = junk(static_cast<size_t>(r.in(0, 9)));
        init.lines = junk(static_cast<size_t>(r.in(0, 20)));
      }
    }
    Result b = init;
    if (p.aniso && !p.build) {
      b.lidx = p.lidx;
      b.lines = p.lines;
    }
    std::string form;
    auto comp = p.compliant;
    if (how < 2 || r.chance(0.2)) {
      form = "long form";
      // The very arrays, to see that they are left alone
      agglomerate_one_level<Ix, double, int>(
        m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, comp, m.nb, p.build, p.aniso, p.odd, p.thr,
        static_cast<CoMMASeedsPoolT>(p.seed), b.f2c, b.lidx, b.lines, p.corr, m.dim, p.goal, p.min, p.max,
        static_cast<CoMMAAspectRatioT>(p.ar), p.sing, p.maxline, static_cast<CoMMACellCouplingT>(p.coupling), p.force_dir,
        p.fc_iter, static_cast<CoMMANeighbourhoodT>(p.neigh));
    } else {
      form = "argument objects";
      c.count("argument_objects");
      GraphArgs<Ix, double, int> ga(m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, m.nb, m.dim);
      AgglomerationArgs<Ix, double, int> aa(p.goal, p.min, p.max, p.corr, static_cast<CoMMASeedsPoolT>(p.seed),
                                static_cast<CoMMAAspectRatioT>(p.ar), p.sing, p.fc_iter,
                                static_cast<CoMMANeighbourhoodT>(p.neigh));
      AnisotropicArgs<Ix, double, int> na(p.aniso, comp, p.build, p.odd, p.thr, p.maxline,
                                     static_cast<CoMMACellCouplingT>(p.coupling), p.force_dir);
      agglomerate_one_level(ga, aa, na, b.f2c, b.lidx, b.lines);
    }
    c.count("repeated_calls");
    if (!c.require(a.f2c == b.f2c, "repeat-cells", [&] { return both(m, p, a, b, form + ": other coarse cells for equal arguments"); })) return;
    if (p.aniso) {
      if (!c.require(a.lidx == b.lidx && a.lines == b.lines, "repeat-lines", [&] { return both(m, p, a, b, form + ": other lines for equal arguments"); }))
        return;
    } else if (!c.require(b.lidx == init.lidx && b.lines == init.lines, "lines-touched", [&] { return both(m, p, a, b, form + ": lines changed without anisotropic treatment"); }))
      return;
    const bool same = in.idx == m.idx && in.adj == m.adj && in.w == m.w && in.vol == m.vol && in.ctr == m.ctr
                      && in.prio == m.prio && in.nb == m.nb && comp == p.compliant;
    if (!c.require(same, "inputs", [&] { return both(in, p, a, b, form + ": an input array was changed"); })) return;
  }
  if (m.n() > 1 && grouped(a)) {
    Hash h;
    c.nontrivial(h.add(mesh_hash(m)).add(p.hash()).h);
    if (m.n() > 3 && m.n() < 16) c.sample(p.desc() + " | " + m.desc() + " adj=" + str(m.adj) + " -> " + a.desc());
  }
}

#endif

#elif VF_PROP == 16
static void scale(Mesh &m, double s) {
  const double ws = m.dim == 2 ? s : s * s, vs = m.dim == 2 ? s * s : s * s * s;
  for (auto &x : m.w) x *= ws;
  for (auto &x : m.vol) x *= vs;
  for (auto &q : m.ctr)
    for (auto &x : q) x *= s;
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 60);
  go.exact = r.chance(0.6);
  Mesh m = gen_mesh(r, go);
  ParamOpt po;
  Params p = gen_params(r, m, po);
  // Criteria built on the barycentre divide by a volume, those built on the
  // external weights by a number of faces: never exact
  const bool bary = p.ar == 7 || p.ar == 8;
  for (auto &x : m.prio)
    if (!(std::fabs(x) < 1e6)) x = 1.;
  bool amb = false;
  if (p.aniso && p.build) line_model(m, p, amb);
  const Result a = call(m, p);
  Mesh t = m;
  std::string what;
  const int kind = static_cast<int>(r.in(0, 4));
  if (kind == 0) {
    const int e = static_cast<int>(p.ar == 8 ? r.in(-18, 3) : r.pick(std::vector<long>{-30, -10, -3, -2, -1, 1, 2, 3, 7, 20, 30}));
    scale(t, std::ldexp(1., e));
    what = "scale by 2^" + std::to_string(e);
    c.count("scaled");
  } else if (kind == 1 && m.exact && !bary && p.ar < 5) {
    const double s = r.pick(std::vector<double>{3., 5., 10., 12.});
    scale(t, s);
    what = "scale by " + std::to_string(s);
    c.count("scaled");
  } else if (kind == 2 && m.exact && !bary) {
    std::vector<double> v;
    const bool far = r.chance(0.4);  // as with coordinates of a map
    for (size_t d = 0; d < m.ctr[0].size(); ++d)
      v.push_back(far ? r.pick(std::vector<double>{0., -3e6, 5e7, 268435456., -1073741824.})
                      : r.pick(std::vector<double>{0., -0.5, 16., -100., 1024., 3.25}));
    for (auto &q : t.ctr)
      for (size_t d = 0; d < q.size(); ++d) {
        const double x = q[d];
        q[d] += v[d];
        if (q[d] - v[d] != x) return;  // no longer the same mesh
      }
    if (far) c.count("translated_far");
    what = "translation by " + str(v);
    c.count("translated");
  } else if (kind == 3) {
    // Mirrors are exact on every mesh, exchanges of axes where sums are
    const size_t D = m.ctr.empty() ? 0 : m.ctr[0].size();
    std::vector<size_t> ax(D);
    std::iota(ax.begin(), ax.end(), 0);
    if (D == 2 || (m.exact && !bary)) r.shuffle(ax);
    std::vector<double> sg;
    for (size_t d = 0; d < D; ++d) sg.push_back(r.chance(0.5) ? 1. : -1.);
    for (size_t i = 0; i < m.ctr.size(); ++i)
      for (size_t d = 0; d < D; ++d) t.ctr[i][d] = sg[d] * m.ctr[i][ax[d]];
    what = "axes " + str(ax) + " signs " + str(sg);
    c.count("axes");
  } else if (!p.aniso) {
    if (!m.exact && p.ar >= 4 && !bary) p.ar = static_cast<int>(r.in(0, 3));
    const Result a2 = call(m, p);
    shuffle_rows(t, r);
    const Result b = call(t, p);
    c.count("listing");
    if (!c.require(a2 == b, "listing", [&] { return both(t, p, a2, b, "the listing order of the neighbours matters"); })) return;
    if (m.n() > 1 && grouped(b)) {
      Hash h;
      c.nontrivial(h.add(mesh_hash(t)).add(p.hash()).h);
    }
    return;
  } else
    return;
  if (amb) {
    c.count("ambiguous_rounding");
    return;
  }
  const Result b = call(t, p);
  if (!c.require(a == b, what.substr(0, what.find(' ')), [&] { return both(m, p, a, b, "result changed by " + what); })) return;
  if (m.n() > 1 && grouped(a)) {
    Hash h;
    c.nontrivial(h.add(mesh_hash(m)).add(p.hash()).add(kind).h);
    if (!a.lines.empty()) c.count("with_lines");
    if (m.n() > 3 && m.n() < 16) c.sample(what + " | " + p.desc() + " | " + m.desc() + " adj=" + str(m.adj) + " -> " + a.desc());
  }
}

#elif VF_PROP == 17
static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 60);
  const int kind = static_cast<int>(r.in(0, 7));
  go.aniso = kind >= 1 && r.chance(0.5);
  Mesh m = gen_mesh(r, go);
  ParamOpt po;
  po.max_iter = 2;
  Params p = gen_params(r, m, po);
  Mesh m2 = m;
  Params q;
  std::string what;
  bool matters = true;
  auto aniso = [&](bool build) {
    p.aniso = true;
    p.build = build;
    if (p.compliant.empty())
      for (size_t i = 0; i < m.n(); ++i) p.compliant.push_back(i);
    p.lidx.clear();
    p.lines.clear();
    if (!build) random_lines(r, m, p.lidx, p.lines);
  };
  switch (kind) {
    case 0:
      what = "boundary-faces";
      for (size_t i = 0; i < m.n(); ++i) {
        if (r.chance(0.4)) m.nb[i] = m.dim + static_cast<int>(r.in(0, 1000));
        m2.nb[i] = std::min(m.nb[i], m.dim);
      }
      q = p;
      break;
    case 1: {
      what = "inverse-threshold";
      aniso(true);
      const double t = r.pick(std::vector<double>{2., 4., 8., 16., 1024., 0.});
      p.thr = t > 0. ? 1. / t : r.real(0.4, 0.999);
      q = p;
      q.thr = t > 0. ? t : 1. / p.thr;
      break;
    }
    case 2:
      what = "negative-threshold";
      aniso(true);
      p.thr = -r.pick(std::vector<double>{1e-9, 0.1, 1., 4., 1e9});
      q = p;
      q.thr = r.chance(0.5) ? -1. : 1.;  // every ratio is at least one
      if (q.thr > 0)
        for (Ix i = 0; i < m.n(); ++i)
          if (m.deg(i) == 0) q.thr = -1.;
      break;
    case 3:
      what = "singular-threshold";
      p.corr = true;
      p.sing = p.min + static_cast<int>(r.in(0, 3) * r.in(0, 40));
      q = p;
      q.sing = p.min - 1;
      break;
    case 4:
      what = "line-limit";
      aniso(true);
      p.maxline = 0;
      q = p;
      q.maxline.reset();
      break;
    case 5:
      what = "coupling";
      aniso(true);
      p.coupling = static_cast<int>(r.pick(std::vector<long>{2, 3, 100, -1}));
      q = p;
      q.coupling = 0;
      break;
    default: {
      what = "no-usable-line";
      const int why = static_cast<int>(r.in(0, 3));
      bool kept = false;
      if (why == 0) {  // no cell may be in a line
        aniso(true);
        p.compliant.clear();
      } else if (why == 1) {  // no cell is stretched enough
        aniso(true);
        p.thr = 1e30;
      } else if (why == 2) {  // nothing given, or not enough to define a line
        aniso(false);
        const int how = static_cast<int>(r.in(0, 4));
        kept = how > 0;  // arrays that define no line may be given back as they are
        p.lidx.clear();
        if (how != 1) p.lines.clear();
        if (how > 0) p.lidx.push_back(0);
        if (how > 2) p.lidx.resize(static_cast<size_t>(r.in(2, 6)), 0);
        if (how > 3) p.lidx.back() = static_cast<Ix>(r.in(1, 20));
        c.count("not_a_line_" + std::to_string(how));
      } else {  // only lines of one cell
        aniso(false);
        p.lidx = {0};
        p.lines.clear();
        for (size_t i = 0; i < m.n(); ++i)
          if (r.chance(0.5)) {
            p.lines.push_back(i);
            p.lidx.push_back(p.lines.size());
          }
      }
      c.count("no_line_" + std::to_string(why));
      q = p;
      q.aniso = false;
      q.lidx.clear();
      q.lines.clear();
      const Result a = call(m, p), b = call(m, q);
      if (!c.require(a.f2c == b.f2c, what, [&] { return both(m, p, a, b, "not the isotropic result without usable line"); })) return;
      if (!c.require((a.lines.empty() && a.lidx.size() <= 1) || (kept && a.lines == p.lines && a.lidx == p.lidx), what + "-lines", [&] { return both(m, p, a, b, "lines returned although none is usable"); }))
        return;
      if (m.n() > 1 && grouped(a)) {
        Hash h;
        c.nontrivial(h.add(mesh_hash(m)).add(p.hash()).h);
      }
      return;
    }
  }
  const Result a = call(m, p), b = call(m2, q);
  c.count(what);
  if (!c.require(a == b, what, [&] { return both(m, p, a, b, "out-of-range value not normalised, second call " + q.desc()); })) return;
  if (what.find("thres") != std::string::npos && p.aniso) matters = !a.lines.empty();
  if (matters && m.n() > 1 && grouped(a)) {
    if (!a.lines.empty()) c.count("with_lines");
    Hash h;
    c.nontrivial(h.add(mesh_hash(m)).add(p.hash()).add(kind).h);
    if (m.n() > 3 && m.n() < 16) c.sample(what + " | " + p.desc() + " | " + m.desc() + " adj=" + str(m.adj) + " -> " + a.desc());
  }
}

#elif VF_PROP == 23
#ifndef VF_PART
#define VF_PART 0
#endif
template<typename I, typename R, typename N>
static bool same(Ctx &c, const Mesh &m, const Params &p, const Result &a, const std::string &name) {
  const auto b = call_t<I, R, N>(m, p);
  Result w;
  w.f2c = conv<Ix>(b.f2c);
  w.lidx = conv<Ix>(b.lidx);
  w.lines = conv<Ix>(b.lines);
  c.count("types_" + name);
  return c.require(w == a, "types-" + name, [&] { return both(m, p, a, w, "other result with types " + name); });
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 60);
  go.exact = r.chance(VF_PART == 3 ? 0.9 : 0.2);
  Mesh m = gen_mesh(r, go);
  Params p = gen_params(r, m);
  const bool huge = m.n() > 33000;
  if (huge && r.chance(0.5)) p.goal = p.min = p.max = 2;
#if VF_PART == 3
  p.ar = static_cast<int>(r.in(0, 4));
#endif
  bool ok = true;
  bool small = true;
  for (double x : m.prio) small = small && static_cast<float>(x) == x;
  const Result a = call(m, p);
  bool amb = false;
  if (p.aniso && p.build) line_model(m, p, amb);
  // One part of the types per binary, to compile them in parallel
  switch (2 * VF_PART + (huge ? 0 : r.in(0, 1))) {
#if VF_PART == 0
    case 0:
      ok = same<unsigned int, double, short>(c, m, p, a, "uint-double-short");
      break;
    case 1:
      ok = same<unsigned long, double, long>(c, m, p, a, "ulong-double-long");
      break;
#elif VF_PART == 1
    case 2:
      ok = same<unsigned short, double, unsigned int>(c, m, p, a, "ushort-double-uint");
      break;
    case 3:
      ok = same<unsigned long long, double, long long>(c, m, p, a, "ulonglong-double-longlong");
      break;
#elif VF_PART == 2
    case 4:
      ok = same<long, double, int>(c, m, p, a, "long-double-int");
      break;
    case 5:
      ok = same<int, double, int>(c, m, p, a, "int-double-int");
      break;
#else
    default: {
      // Other real types: everything computed must be exact, or the same
      // rounded quotient of exact numbers
      if (!m.exact || amb || p.ar > 4) break;
      double cmax = 0, wmin = INFINITY, wmax = 0;
      for (const auto &q : m.ctr)
        for (double x : q) cmax = std::max(cmax, std::fabs(x));
      for (double x : m.w) wmin = std::min(wmin, x), wmax = std::max(wmax, x);
      std::set<double> sp(m.vol.begin(), m.vol.end());
      if (cmax < 1e4 && (m.w.empty() || wmax < 1e4)) {
        ok = same<unsigned long, long double, int>(c, m, p, a, "ulong-longdouble-int");
        // Single precision: uniform grids and small coarse cells only
        if (ok && small && sp.size() == 1 && cmax < 32 && p.max <= 8 && p.fc_iter == 1 && (m.w.empty() || wmax == wmin))
          ok = same<unsigned int, float, int>(c, m, p, a, "uint-float-int");
      }
    }
#endif
  }
  if (ok && m.n() > 1 && grouped(a)) {
    Hash h;
    c.nontrivial(h.add(mesh_hash(m)).add(p.hash()).h);
    if (m.n() > 3 && m.n() < 16) c.sample(p.desc() + " | " + m.desc() + " adj=" + str(m.adj) + " -> " + a.desc());
  }
}
#endif

#ifndef VF_PART
#define VF_PART 0
#endif
int main(int argc, char **argv) { return driver_main(argc, argv, 100 + VF_PROP + 1000 * VF_PART, one); }
