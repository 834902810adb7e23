// P18 coarse graph, P19 wall distance, P20 filter by number of faces.
#include "oracles.h"
using namespace vf;

#if VF_PROP == 18
template<typename I, typename R, typename N>
struct CG {
  std::vector<I> idx, adj;
  std::vector<R> w, vol, prio;
  std::vector<std::vector<R>> ctr;
  std::vector<N> nb;
};

template<typename I, typename R, typename N>
static CG<I, R, N> coarse_graph(const Mesh &m, const std::vector<Ix> &f2c, Rng &r) {
  CG<I, R, N> o;
  if (r.chance(0.3)) {  // outputs need not be empty
    o.idx = {7, 7};
    o.adj.assign(5, 3);
    o.w.assign(9, R(5));
    o.vol.assign(m.n() + 3, R(11));
    o.prio.assign(m.n() + 3, R(12));
    o.nb.assign(m.n() + 3, N(13));
    o.ctr.assign(m.n() + 2, std::vector<R>(3, R(1)));
  }
  std::vector<std::vector<R>> ctr;
  for (const auto &c : m.ctr) ctr.push_back(conv<R>(c));
  comma::build_coarse_graph<I, R, N>(conv<I>(f2c), conv<I>(m.idx), conv<I>(m.adj), conv<R>(m.w), conv<R>(m.vol), ctr,
                                     conv<R>(m.prio), conv<N>(m.nb), o.idx, o.adj, o.w, o.vol, o.ctr, o.prio, o.nb);
  return o;
}

template<typename I, typename R, typename N>
static bool judge(Ctx &c, const Mesh &m, const std::vector<Ix> &f2c, const CG<I, R, N> &o, double tol) {
  auto fail = [&](const std::string &k, const std::string &w) {
    c.violation(k, w + " | f2c=" + str(f2c, 300) + " | " + m.full() + " | coarse idx=" + str(o.idx) + " adj=" + str(o.adj)
                     + " w=" + str(o.w) + " vol=" + str(o.vol) + " prio=" + str(o.prio) + " nb=" + str(o.nb));
    return false;
  };
  const auto g = groups(f2c);
  const size_t nc = g.size();
  c.count("monitor_evaluations");
  if (o.idx.size() != nc + 1 || o.idx[0] != 0 || o.idx.back() != o.adj.size() || o.w.size() != o.adj.size()
      || o.vol.size() != nc || o.ctr.size() != nc || o.prio.size() != nc || o.nb.size() != nc)
    return fail("sizes", "inconsistent output sizes");
  auto near = [&](double a, double b, double scale) { return std::fabs(a - b) <= tol * std::max(scale, 1e-300); };
  std::vector<std::map<Ix, double>> want(nc);
  for (size_t i = 0; i < m.n(); ++i)
    for (Ix e = m.idx[i]; e < m.idx[i + 1]; ++e)
      if (f2c[i] != f2c[m.adj[e]]) want[f2c[i]][f2c[m.adj[e]]] += m.w[e];
  for (size_t k = 0; k < nc; ++k) {
    c.count("monitor_evaluations", 6);
    double v = 0, pr = -INFINITY;
    int nb = 0;
    std::vector<double> x(m.ctr[0].size(), 0.), sc(m.ctr[0].size(), 0.);
    for (Ix f : g[k]) {
      v += m.vol[f];
      pr = std::max(pr, m.prio[f]);
      nb = std::max(nb, m.nb[f]);
      for (size_t d = 0; d < x.size(); ++d) {
        x[d] += m.vol[f] * m.ctr[f][d];
        sc[d] += m.vol[f] * std::fabs(m.ctr[f][d]);
      }
    }
    if (!near(o.vol[k], v, v)) return fail("volume", "volume of coarse cell " + std::to_string(k));
    if (o.prio[k] != static_cast<R>(pr)) return fail("priority", "priority of coarse cell " + std::to_string(k));
    if (o.nb[k] != static_cast<N>(nb)) return fail("boundary", "boundary faces of coarse cell " + std::to_string(k));
    if (o.ctr[k].size() != x.size()) return fail("centre", "dimension of the centre");
    for (size_t d = 0; d < x.size(); ++d)
      if (!near(o.ctr[k][d], x[d] / v, sc[d] / v))
        return fail("centre", "centre of coarse cell " + std::to_string(k) + " is " + str(o.ctr[k]) + ", expected "
                                + std::to_string(x[d] / v) + " in direction " + std::to_string(d));
    std::set<Ix> seen;
    if (o.idx[k] > o.idx[k + 1]) return fail("sizes", "offsets decrease");
    for (size_t e = o.idx[k]; e < o.idx[k + 1]; ++e) {
      const Ix q = o.adj[e];
      if (q == k) return fail("self", "self connection of " + std::to_string(k));
      if (!seen.insert(q).second) return fail("duplicate", "neighbour listed twice for " + std::to_string(k));
      const auto it = want[k].find(q);
      if (it == want[k].end()) return fail("extra-edge", "unexpected connection");
      if (!near(o.w[e], it->second, it->second))
        return fail("weight", "weight between " + std::to_string(k) + " and " + std::to_string(q) + ", expected "
                                + std::to_string(it->second));
      c.count("coarse_edges");
    }
    if (seen.size() != want[k].size()) return fail("missing-edge", "connections missing for " + std::to_string(k));
  }
  return true;
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 60);
  bool small = r.chance(0.2);
  Mesh m;
  do m = gen_mesh(r, go);
  while (m.n() == 0);
  const bool huge = m.n() > 33000;
  if (huge) small = r.chance(0.6);
  for (auto x : m.nb)
    if (x > 32000) small = false;  // counted with 16 bits
  std::vector<Ix> f2c;
  const int how = static_cast<int>(huge && small ? r.in(0, 1) : r.in(0, 3));
  if (how == 0) {  // any partition
    const long k = r.in(huge && small ? static_cast<long>(m.n()) - 20000 : 1, static_cast<long>(m.n()));
    f2c.resize(m.n());
    for (auto &x : f2c) x = r.in(0, k - 1);
    std::map<Ix, Ix> re;
    for (auto x : f2c) re.emplace(x, 0);
    Ix q = 0;
    for (auto &[a, b] : re) b = q++;
    for (auto &x : f2c) x = re[x];
  } else if (how == 1) {  // identity or everything together
    f2c.assign(m.n(), 0);
    if ((huge && small) || r.chance(0.5)) std::iota(f2c.begin(), f2c.end(), 0);
  } else {
    const Params p = gen_params(r, m);
    f2c = call(m, p).f2c;
    c.count("from_agglomeration");
  }
  bool ok;
  if (small) {  // other types, on values they represent
    for (auto &x : m.w) x = static_cast<float>(x);
    for (auto &x : m.vol) x = static_cast<float>(x);
    for (auto &x : m.prio) x = std::max(-1e30, std::min(1e30, static_cast<double>(static_cast<float>(std::max(-1e30, std::min(1e30, x))))));
    for (auto &x : m.prio) x = static_cast<float>(x);
    for (auto &p : m.ctr)
      for (auto &x : p) x = static_cast<float>(x);
    ok = judge(c, m, f2c, coarse_graph<unsigned int, float, short>(m, f2c, r), 1e-4);
    c.count("other_types");
    if (huge) c.count("other_types_large");
  } else
    ok = judge(c, m, f2c, coarse_graph<Ix, double, int>(m, f2c, r), 1e-11);
  Hash h;
  h.add(mesh_hash(m)).addv(f2c);
  if (ok && groups(f2c).size() > 1) {
    c.nontrivial(h.h);
    if (m.n() > 3 && m.n() < 12) c.sample("f2c=" + str(f2c) + " on " + m.desc());
  }
}
#elif VF_PROP == 19
template<typename D>
static void judge(Ctx &c, Rng &r, const Mesh &m, const std::vector<Ix> &wall, const std::vector<long> &want) {
  std::vector<D> d;
  if (r.chance(0.4)) d.assign(r.in(0, static_cast<long>(m.n()) + 4), static_cast<D>(r.in(-3, 3)));
  comma::compute_neighbourhood_based_wall_distance<Ix, D>(m.idx, m.adj, wall, d);
  c.require(d.size() == m.n(), "size", [&] { return "distance vector has the wrong size on " + m.full(); });
  for (size_t i = 0; i < d.size() && i < m.n(); ++i)
    if (!c.require(want[i] < 0 ? d[i] < 0 : d[i] == static_cast<D>(want[i]), "distance", [&] {
          return "cell " + std::to_string(i) + ": " + std::to_string(d[i]) + ", graph distance "
                 + std::to_string(want[i]) + " wall=" + str(wall) + " | " + m.desc() + " idx=" + str(m.idx, 400)
                 + " adj=" + str(m.adj, 1500);
        }))
      return;
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 90);
  Mesh m = gen_mesh(r, go);
  if (r.chance(0.1)) {  // long distances
    m = abstract_graph(r, 2, static_cast<int>(r.in(0, 1)), r.in(50, 3000));
    c.count("long_chain");
  }
  std::vector<Ix> wall;
  const long n = static_cast<long>(m.n());
  switch (r.in(0, 4)) {
    case 0:
      wall = m.wall;
      break;
    case 1:
      if (n) wall = {static_cast<Ix>(r.in(0, n - 1))};
      break;
    case 2: {
      const double pr = r.real(0.01, 0.4);
      for (long i = 0; i < n; ++i)
        if (r.chance(pr)) wall.push_back(i);
      break;
    }
    case 3:
      for (long q = r.in(1, 5); q > 0 && n; --q) wall.push_back(r.in(0, n - 1));
      break;
    default:
      for (long i = 0; i < n; ++i)
        if (m.nb[i] > 0) wall.push_back(i);
  }
  r.shuffle(wall);
  if (!wall.empty() && r.chance(0.2)) wall.push_back(wall[0]);  // a cell with two wall faces
  // Independent reference: relaxation to a fixed point
  std::vector<long> want(n, -1);
  for (auto x : wall) want[x] = 0;
  long level = 0;
  for (bool more = true; more; ++level) {
    more = false;
    for (long i = 0; i < n; ++i)
      if (want[i] == level)
        for (Ix e = m.idx[i]; e < m.idx[i + 1]; ++e)
          if (want[m.adj[e]] < 0) {
            want[m.adj[e]] = level + 1;
            more = true;
          }
    if (level > n) break;
  }
  judge<int>(c, r, m, wall, want);
  judge<double>(c, r, m, wall, want);
  judge<long>(c, r, m, wall, want);
  judge<float>(c, r, m, wall, want);
  if (level < 100) judge<signed char>(c, r, m, wall, want);
  long mx = -1, un = 0;
  for (auto x : want) mx = std::max(mx, x), un += x < 0;
  c.count("unreached_cells", un);
  c.count("far_cells", std::count_if(want.begin(), want.end(), [](long x) { return x > 2; }));
  if (wall.empty()) c.count("empty_wall");
  Hash h;
  h.add(mesh_hash(m)).addv(wall);
  if (mx > 0) {
    c.nontrivial(h.h);
    if (n < 16) c.sample("wall=" + str(wall) + " on " + m.desc() + " adj=" + str(m.adj) + " -> " + str(want));
  }
}
#else
template<typename I, typename N>
static void judge(Ctx &c, Rng &r, const Mesh &m, const std::vector<long> &allowed, const std::vector<Ix> &want) {
  std::vector<I> f;
  if (r.chance(0.4)) f.assign(r.in(0, 5), 1);
  std::unordered_set<N> a;
  for (auto x : allowed) a.insert(static_cast<N>(x));
  comma::filter_cells_by_n_edges<I, N>(conv<I>(m.idx), conv<N>(m.nb), a, f);
  c.require(conv<Ix>(f) == want, "selection", [&] {
    return "requested " + str(allowed) + ": got " + str(f, 300) + ", expected " + str(want, 300) + " | " + m.desc()
           + " idx=" + str(m.idx, 400) + " nb=" + str(m.nb, 400);
  });
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 60);
  Mesh m = gen_mesh(r, go);
  if (r.chance(0.03)) {  // cells with many neighbours
    m = abstract_graph(r, 2, r.chance(0.8) ? 2 : 11, r.chance(0.97) ? r.in(60, 700) : r.pick(std::vector<long>{32700, 32769, 65530, 65537}) + r.in(0, 9));
    c.count("many_faces");
  } else if (m.n() && r.chance(0.05)) {  // and with many boundary faces
    for (long q = r.in(1, 3); q > 0; --q) m.nb[r.in(0, static_cast<long>(m.n()) - 1)] = static_cast<int>(r.in(100, 600));
    c.count("many_faces");
  }
  long most = 0;
  Ix top = 0;
  for (size_t i = 0; i < m.n(); ++i)
    if (static_cast<long>(m.deg(i)) + m.nb[i] > most) {
      most = static_cast<long>(m.deg(i)) + m.nb[i];
      top = i;
    }
  for (int rep = 0; rep < 4; ++rep) {
    std::vector<long> allowed;
    const long k = r.in(0, 4);
    for (long q = 0; q < k; ++q) allowed.push_back(r.chance(0.25) ? r.in(-2, 0) : r.in(1, 7));
    if (m.n() && r.chance(0.4)) {  // what some cell has
      const Ix i = r.chance(0.5) ? top : static_cast<Ix>(r.in(0, static_cast<long>(m.n()) - 1));
      allowed.push_back(static_cast<long>(m.deg(i)) + m.nb[i] + (r.chance(0.1) ? r.pick(std::vector<long>{-256, 256, 1, -1}) : 0));
    }
    std::vector<Ix> want;
    for (size_t i = 0; i < m.n(); ++i) {
      const long e = static_cast<long>(m.deg(i)) + m.nb[i];
      if (e > 0 && std::find(allowed.begin(), allowed.end(), e) != allowed.end()) want.push_back(i);
    }
    judge<Ix, int>(c, r, m, allowed, want);
    judge<unsigned int, long>(c, r, m, allowed, want);
    long far = most;
    for (auto x : allowed) far = std::max(far, std::labs(x));
    if (far < 32000) judge<int, short>(c, r, m, allowed, want);
    if (far < 120) judge<unsigned long, signed char>(c, r, m, allowed, want);
    Hash h;
    h.add(mesh_hash(m)).addv(allowed);
    bool neg = false;
    for (auto x : allowed) neg = neg || x <= 0;
    if (neg) c.count("with_non_positive_request");
    if (!want.empty() && want.size() < m.n()) {
      c.nontrivial(h.h);
      if (m.n() < 12)
        c.sample("requested " + str(allowed) + " on " + m.desc() + " idx=" + str(m.idx) + " nb=" + str(m.nb) + " -> "
                 + str(want));
    }
  }
}
#endif

int main(int argc, char **argv) { return driver_main(argc, argv, 100 + VF_PROP, one); }
