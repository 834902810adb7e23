// P08: every public entry point on valid, often degenerate, inputs. The
// sanitizers, the checked library and the watchdog are the monitors.
#include "levels.h"
using namespace vf;
using namespace comma;

static Mesh hostile(Rng &r, long max_n) {
  Mesh m;
  const long f = r.in(0, 9);
  if (f < 5) {
    GenOpt go;
    go.max_n = max_n;
    m = gen_mesh(r, go);
  } else if (f == 5) {  // nothing, or a few isolated cells
    m.kind = "isolated";
    m.dim = r.chance(0.5) ? 2 : 3;
    const long n = r.in(0, 4);
    m.idx.assign(n + 1, 0);
    m.vol.assign(n, 1.);
    m.nb.assign(n, static_cast<int>(r.in(0, 7)));
    for (long i = 0; i < n; ++i) m.ctr.push_back(std::vector<double>(m.dim, static_cast<double>(i)));
    set_priorities(m, r);
  } else {
    GenOpt go;
    go.max_n = std::max(4L, max_n / 2);
    m = gen_mesh(r, go);
    if (f == 6)  // a purely algebraic use: geometry is not known
      for (auto &c : m.ctr) std::fill(c.begin(), c.end(), 0.);
    if (f == 7) {  // extreme values
      const double s = r.pick(std::vector<double>{1e-100, 1e-30, 1e30, 1e100});
      for (auto &x : m.w) x *= s;
      for (auto &x : m.vol) x *= s;
    }
    if (f == 8)
      for (auto &c : m.ctr)
        for (auto &x : c) x = x * 1e-12 + 1e3;
    if (f == 9)
      for (auto &b : m.nb) b = static_cast<int>(r.in(0, 3));
  }
  return m;
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  const Mesh m0 = hostile(r, big_or(r, VF_BIG));
  Mesh m = m0;
  ParamOpt po;
  po.max_card = r.chance(0.1) ? 60 : 14;
  Params p = gen_params(r, m, po);
  if (r.chance(0.03)) p.goal = p.max = 100000;
  if (r.chance(0.03)) p.sing = 1000;
  if (r.chance(0.05)) p.thr = r.pick(std::vector<double>{0., 1., -0., 1e308, 1e-308});
  if (p.build && r.chance(0.03)) p.maxline = 0;
  if (r.chance(0.03)) p.maxline = ~0UL - static_cast<Ix>(r.in(0, 2));
  if (p.build && r.chance(0.03)) p.coupling = 9;
  Hash h;
  h.add(mesh_hash(m)).add(p.hash());
  const long levels = r.in(1, 4);
  c.count("monitor_evaluations");
  c.count("kind_" + m.kind.substr(0, m.kind.find('+')));
  if (m.n() == 0) c.count("empty_mesh");
  for (long l = 0; l < levels; ++l) {
    Result init;
    if (r.chance(0.2)) init.f2c.assign(r.in(0, 30), 12345);
    Result res;
    if (r.chance(0.3)) {
      res = init;
      if (p.aniso && !p.build) res.lidx = p.lidx, res.lines = p.lines;
      GraphArgs<Ix, double, int> ga(m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, m.nb, m.dim);
      AgglomerationArgs<Ix, double, int> aa(p.goal, p.min, p.max, p.corr, static_cast<CoMMASeedsPoolT>(p.seed),
                                            static_cast<CoMMAAspectRatioT>(p.ar), p.sing, p.fc_iter,
                                            static_cast<CoMMANeighbourhoodT>(p.neigh));
      AnisotropicArgs<Ix, double, int> na(p.aniso, p.compliant, p.build, p.odd, p.thr, p.maxline,
                                          static_cast<CoMMACellCouplingT>(p.coupling), p.force_dir);
      agglomerate_one_level(ga, aa, na, res.f2c, res.lidx, res.lines);
    } else
      res = call(m, p, init);
    c.count("agglomerations");
    // What the caller does next: reads all of the output
    if (!c.require(res.f2c.size() == m.n(), "size", [&] { return ctx_msg(m, p, res, "output of another size"); })) return;
    if (!c.require(std::all_of(res.f2c.begin(), res.f2c.end(), [&](Ix x) { return x < m.n(); }), "range",
                   [&] { return ctx_msg(m, p, res, "coarse number out of range"); }))
      return;
    m = coarsen(m, res.f2c);
    c.count("coarse_graphs");
    if (m.n() < 1) break;
    p.compliant.clear();
    if (p.aniso) {
      p.build = r.chance(0.3);
      p.lidx.clear();
      p.lines.clear();
      if (p.build) {
        for (size_t i = 0; i < m.n(); ++i) p.compliant.push_back(i);
      } else {
        p.lidx = res.lidx;
        p.lines = res.lines;
        if (p.maxline && *p.maxline == 0) p.maxline.reset();
      }
    }
  }
  {
    std::vector<Ix> wall;
    const double pw = r.pick(std::vector<double>{0., 0.05, 0.3, 1.});
    for (size_t i = 0; i < m0.n(); ++i)
      if (r.chance(pw)) wall.push_back(i);
    std::vector<long> d;
    if (r.chance(0.3)) d.assign(3, 7);
    compute_neighbourhood_based_wall_distance<Ix, long>(m0.idx, m0.adj, wall, d);
    c.count("wall_distances");
    std::unordered_set<int> want;
    for (long q = r.in(0, 4); q > 0; --q) want.insert(static_cast<int>(r.in(-2, 9)));
    std::vector<Ix> sel;
    filter_cells_by_n_edges<Ix, int>(m0.idx, m0.nb, want, sel);
    c.count("filters");
  }
  c.nontrivial(h.h);
  if (m0.n() > 3 && m0.n() < 16) c.sample(p.desc() + " | " + m0.desc() + " adj=" + str(m0.adj) + " levels=" + std::to_string(levels));
}

int main(int argc, char **argv) { return driver_main(argc, argv, 108 + VF_TAG, one); }
