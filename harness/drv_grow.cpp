// P14 candidates offered during growth, P15 shape measures.
#include "oracles.h"
#include "shape.h"
using namespace vf;
using namespace comma;

#if VF_PROP == 14
struct Model {
  const Mesh *m;
  std::set<Ix> allowed, in;
  std::vector<Ix> added;
  std::vector<Ix> eligible_of(Ix x) const {
    std::vector<Ix> v;
    for (Ix e = m->idx[x]; e < m->idx[x + 1]; ++e)
      if (allowed.count(m->adj[e]) && !in.count(m->adj[e])) v.push_back(m->adj[e]);
    return v;
  }
  std::set<Ix> eligible() const {
    std::set<Ix> s;
    for (Ix x : in)
      for (Ix y : eligible_of(x)) s.insert(y);
    return s;
  }
};
using Nb = Neighbourhood<Ix, double, int>;

static bool judge(Ctx &c, const Nb &nb, const std::vector<Ix> &before, const Model &k, bool ext, int dim,
                  const std::string &hist) {
  const Mesh &m = *k.m;
  const std::vector<Ix> got(nb.get_candidates().begin(), nb.get_candidates().end());
  auto fail = [&](const std::string &key, const std::string &w) {
    c.violation(key, w + ": candidates " + str(got) + (ext ? " extended" : " pure front") + " after" + hist + " allowed "
                       + str(std::vector<Ix>(k.allowed.begin(), k.allowed.end())) + " | " + m.full());
    return false;
  };
  c.count("monitor_evaluations");
  const std::set<Ix> gs(got.begin(), got.end());
  if (gs.size() != got.size()) return fail("twice", "cell offered twice");
  for (Ix x : got)
    if (k.in.count(x)) return fail("already-in", "cell offered after having been added");
  auto sorted = [&](const std::vector<Ix> &v) {
    for (size_t i = 1; i < v.size(); ++i)
      if (m.prio[v[i - 1]] < m.prio[v[i]] || (m.prio[v[i - 1]] == m.prio[v[i]] && v[i - 1] > v[i])) return false;
    return true;
  };
  const auto el = k.eligible();
  if (ext || static_cast<int>(k.added.size()) <= dim) {
    if (gs != el) return fail("eligible", "not exactly the eligible cells " + str(std::vector<Ix>(el.begin(), el.end())));
  }
  if (ext) {
    // Kept in place, the new ones after by priority and number
    const std::set<Ix> bs(before.begin(), before.end());
    std::vector<Ix> fresh, kept;
    for (Ix x : got) (bs.count(x) ? kept : fresh).push_back(x);
    std::vector<Ix> want;
    for (Ix x : before)
      if (x != k.added.back()) want.push_back(x);
    if (kept != want || !sorted(fresh) || !std::equal(kept.begin(), kept.end(), got.begin()))
      return fail("order", "order of the candidates, before " + str(before));
    return true;
  }
  if (!sorted(got)) return fail("order", "order of the candidates");
  if (static_cast<int>(k.added.size()) > dim) {
    auto last = k.eligible_of(k.added.back());
    if (!last.empty()) {
      c.count("front_from_last");
      if (gs != std::set<Ix>(last.begin(), last.end())) return fail("front", "not the neighbours of the last cell " + str(last));
    } else if (!el.empty()) {
      c.count("front_fallback");
      bool ok = false;
      for (Ix x : k.added) {
        const auto v = k.eligible_of(x);
        ok = ok || (!v.empty() && gs == std::set<Ix>(v.begin(), v.end()));
      }
      if (!ok) return fail("fallback", "not the eligible neighbours of an earlier cell");
    } else if (!got.empty())
      return fail("front", "no cell is eligible");
  }
  return true;
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 50);
  const Mesh m = gen_mesh(r, go);
  if (m.n() < 3) return;
  const bool ext = r.chance(0.5);
  Model k;
  k.m = &m;
  const Ix seed = r.in(0, static_cast<long>(m.n()) - 1);
  // Allowed cells: within a distance of the seed, some already taken
  const double pt = r.pick(std::vector<double>{0., 0., 0.2, 0.4});
  const auto d = bfs(m, {seed}, {});
  const long lim = r.chance(0.95) ? r.in(1, 5) : r.in(6, 40);
  for (size_t i = 0; i < m.n(); ++i)
    if (i != seed && d[i] > 0 && d[i] <= lim && !r.chance(pt)) k.allowed.insert(i);
  const std::unordered_set<Ix> al(k.allowed.begin(), k.allowed.end());
  std::shared_ptr<NeighbourhoodCreator<Ix, double, int>> cr;
  if (ext)
    cr = std::make_shared<NeighbourhoodExtendedCreator<Ix, double, int>>();
  else
    cr = std::make_shared<NeighbourhoodPureFrontCreator<Ix, double, int>>();
  struct State {
    std::shared_ptr<Nb> nb;
    Model k;
    std::string hist;
  };
  std::vector<State> st;
  st.push_back({cr->create(al, m.prio, m.dim), k, ""});
  Hash h;
  h.add(mesh_hash(m)).add(ext).add(seed).addv(std::vector<Ix>(k.allowed.begin(), k.allowed.end()));
  auto add = [&](State &s, Ix x) {
    const std::vector<Ix> before(s.nb->get_candidates().begin(), s.nb->get_candidates().end());
    const std::vector<Ix> row(m.adj.begin() + m.idx[x], m.adj.begin() + m.idx[x + 1]);
#ifndef VF_MIN  // as in drv_graph.cpp
    if (r.chance(0.5))
      s.nb->update_it(x, row.cbegin(), row.cend());
    else
#endif
      s.nb->update(x, row);
    s.k.in.insert(x);
    s.k.added.push_back(x);
    s.hist += " +" + std::to_string(x);
    h.add(x);
    return judge(c, *s.nb, before, s.k, ext, m.dim, s.hist);
  };
  if (!add(st[0], seed)) return;
  const long steps = r.chance(0.98) ? r.in(1, 16) : r.in(30, 150);
  long done = 0;
  for (long q = 0; q < steps; ++q) {
    State &s = st[r.in(0, static_cast<long>(st.size()) - 1)];
    const auto &cand = s.nb->get_candidates();
    if (cand.empty()) continue;
    if (st.size() < 4 && r.chance(0.2)) {
      State t{cr->clone(s.nb), s.k, s.hist + " (copy)"};
      c.count("copies");
      const std::vector<Ix> a(s.nb->get_candidates().begin(), s.nb->get_candidates().end()),
        b(t.nb->get_candidates().begin(), t.nb->get_candidates().end());
      if (!c.require(a == b, "copy", [&] { return "a copy offers other cells after" + t.hist + " | " + m.full(); })) return;
      st.push_back(t);
      continue;
    }
    const Ix x = cand[r.in(0, static_cast<long>(cand.size()) - 1)];
    if (!add(s, x)) return;
    done++;
    // The others must not have moved
    for (auto &o : st)
      if (&o != &s) {
        const auto el = o.k.eligible();
        const std::set<Ix> g(o.nb->get_candidates().begin(), o.nb->get_candidates().end());
        bool ok = ext ? g == el : std::includes(el.begin(), el.end(), g.begin(), g.end()) && g.empty() == el.empty();
        if (!c.require(ok, "copy-moved", [&] { return "a copy changed with its original;" + o.hist + " | " + m.full(); })) return;
      }
  }
  c.count(ext ? "extended" : "pure_front");
  c.count("additions", done);
  if (done > 1) {
    c.nontrivial(h.h);
    if (m.n() < 14) c.sample((ext ? std::string("extended") : std::string("front")) + st[0].hist + " on " + m.desc() + " adj=" + str(m.adj));
  }
}
#else
using G = Dual_Graph<Ix, double, int>;
using F = CellFeatures<Ix, double, int>;

template<unsigned int D>
static std::shared_ptr<ARComputer<Ix, double, int>> computer(int ar, std::shared_ptr<G> g) {
  switch (ar) {
    case DIAMETER_OVER_RADIUS:
      return std::make_shared<ARDiamOverRadius<Ix, double, int, D>>(g);
    case DIAMETER_OVER_MIN_EDGE:
      return std::make_shared<ARDiamOverMinEdge<Ix, double, int>>(g);
    case DIAMETER:
      return std::make_shared<ARDiameter<Ix, double, int>>(g);
    case ONE_OVER_MEASURE:
      return std::make_shared<AROverMeasure<Ix, double, int>>(g);
    case ONE_OVER_INTERNAL_WEIGHTS:
      return std::make_shared<AROverInternalWeights<Ix, double, int>>(g);
    case PERIMETER_OVER_RADIUS:
      return std::make_shared<ARExternalWeightOverRadius<Ix, double, int, D>>(g);
    case EXTERNAL_WEIGHTS:
      return std::make_shared<ARExternalWeights<Ix, double, int>>(g);
    case MAX_BARY_DIST_OVER_RADIUS:
      return std::make_shared<ARMaxBaryDistanceOverRadius<Ix, double, int, D>>(g);
    case MAX_OVER_MIN_BARY_DIST:
      return std::make_shared<ARMaxOverMinBaryDistance<Ix, double, int>>(g, 1e-12);
    default:
      return std::make_shared<ARExternalWeightOverRadius<Ix, double, int, 1>>(g);
  }
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 40);
  Mesh m = gen_mesh(r, go);
  if (m.n() < 3) return;
  if (r.chance(0.3))
    for (auto &p : m.ctr)
      for (auto &x : p) x += r.chance(0.5) ? 16. : -100.;
  if (r.chance(0.4)) {  // other units
    other_unit(m, static_cast<int>(r.in(-12, 12)));
    c.count("other_units");
  }
  const std::vector<Ix> none;
  auto g = std::make_shared<G>(m.n(), m.idx, m.adj, m.w, m.vol, m.ctr, m.nb, m.dim, none);
  const Ix seed = r.in(0, static_cast<long>(m.n()) - 1);
  if (m.deg(seed) == 0) return;
  const int ar = static_cast<int>(r.in(0, 9));
  // The formulas hold for any dimension
  const int dim = r.chance(0.85) ? m.dim : static_cast<int>(r.pick(std::vector<long>{1, 4, 5}));
  auto comp = dim == 1 ? computer<1>(ar, g) : dim == 2 ? computer<2>(ar, g) : dim == 3 ? computer<3>(ar, g)
            : dim == 4 ? computer<4>(ar, g) : computer<5>(ar, g);
  if (dim != m.dim) c.count("other_dimensions");
  const bool geom = ar == DIAMETER_OVER_RADIUS || ar == DIAMETER_OVER_MIN_EDGE || ar == DIAMETER;
  const bool wts = ar == ONE_OVER_INTERNAL_WEIGHTS || ar == PERIMETER_OVER_RADIUS || ar == EXTERNAL_WEIGHTS
                   || ar == ALGEBRAIC_PERIMETER_OVER_MEASURE;
  const bool bary = ar == MAX_BARY_DIST_OVER_RADIUS || ar == MAX_OVER_MIN_BARY_DIST;
  std::vector<Ix> cells{seed};
  std::unordered_set<Ix> cc{seed};
  F feats(seed, g);
  std::string hist = std::to_string(seed);
  auto msg = [&](const std::string &w) { return w + " | criterion " + std::to_string(ar) + " dimension " + std::to_string(dim) + " cells in order " + hist + " | " + m.full(); };
  const double eps = 1e-9;
  auto near = [&](double a, double b, double s) { return std::fabs(a - b) <= eps * s; };
  auto judge = [&](const F &f, const std::vector<Ix> &cs, int shared) {
    const Ref w = reference(m, cs);
    auto prev = cs;
    prev.pop_back();
    long sh = 0;
    for (Ix e = m.idx[cs.back()]; e < m.idx[cs.back() + 1]; ++e)
      sh += std::find(prev.begin(), prev.end(), m.adj[e]) != prev.end();
    bool ok = c.require(shared == sh, "shared-faces", [&] { return msg("shared faces of cell " + std::to_string(cs.back()) + ": " + std::to_string(shared)); });
    ok = ok && c.require(near(f._measure, w.vol, w.vol), "measure", [&] { return msg("measure"); });
    ok = ok && c.require(f._n_internal_faces == w.faces, "internal-faces", [&] { return msg("internal faces: " + std::to_string(f._n_internal_faces)); });
    if (ok && geom)
      ok = c.require(near(f._sq_diam, w.d2max, w.d2max) && near(f._sq_min_edge, w.d2min, w.d2min), "distances",
                     [&] { return msg("diameter or smallest distance"); });
    if (ok && wts)
      ok = c.require(near(f._external_weights, w.ext, w.total) && near(f._internal_weights, w.intw, w.total), "weights",
                     [&] { return msg("external or internal weights: " + std::to_string(f._external_weights) + " " + std::to_string(f._internal_weights) + " expected " + std::to_string(w.ext) + " " + std::to_string(w.intw)); });
    if (ok && bary)
      for (size_t d = 0; d < w.sum.size(); ++d) {
        double s = 0;
        for (Ix x : cs) s += m.vol[x] * std::fabs(m.ctr[x][d]);
        ok = ok && c.require(near(f._sum_centers[d], w.sum[d], s), "centre", [&] { return msg("weighted sum of the centres"); });
      }
    return ok;
  };
  const long steps = r.chance(0.99) ? r.in(1, 12) : r.in(30, 150);
  Hash h;
  h.add(mesh_hash(m)).add(seed).add(ar);
  for (long q = 0; q < steps; ++q) {
    std::set<Ix> cand;
    for (Ix x : cells)
      for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e)
        if (!cc.count(m.adj[e])) cand.insert(m.adj[e]);
    if (cand.empty()) break;
    std::vector<Ix> cv(cand.begin(), cand.end());
    r.shuffle(cv);
    if (cv.size() > 12) cv.resize(12);
    std::vector<double> lib, def;
    std::vector<F> fs;
    for (Ix x : cv) {
      int sh = -1;
      double a = -1;
      F nf{};
      comp->compute_and_update_features(x, feats, cc, sh, a, nf);
      auto with = cells;
      with.push_back(x);
      if (!judge(nf, with, sh)) return;
      lib.push_back(a);
      fs.push_back(nf);
      def.push_back(definition(ar, m, with, reference(m, with), dim));
    }
    for (size_t i = 0; i < cv.size(); ++i)
      for (size_t j = 0; j < cv.size(); ++j)
        if (def[i] < def[j] * (1 - 1e-6)) {
          c.count("ranked_pairs");
          if (!c.require(lib[i] < lib[j], "ranking", [&] {
                std::ostringstream o;
                o.precision(12);
                o << "adding " << cv[i] << " should rank better than " << cv[j] << ": formula " << def[i] << " < " << def[j]
                  << " but computed " << lib[i] << " and " << lib[j];
                return msg(o.str());
              }))
            return;
        }
    const size_t pick = r.in(0, static_cast<long>(cv.size()) - 1);
    feats = fs[pick];
#ifndef VF_MIN
    if (r.chance(0.1)) {  // from its parts
      feats = F(feats._measure, feats._external_weights, feats._internal_weights, feats._n_internal_faces,
                std::sqrt(feats._sq_min_edge), std::sqrt(feats._sq_diam), feats._sum_centers, feats._external_facets);
      c.count("from_parts");
      const double v = feats._measure;
      if (!c.require(near(feats.template get_radius<1>(), v, v) && near(feats.template get_radius<2>(), std::sqrt(v), std::sqrt(v))
                       && near(feats.template get_radius<3>(), std::cbrt(v), std::cbrt(v))
                       && near(feats.template get_radius<4>(), std::sqrt(std::sqrt(v)), std::sqrt(std::sqrt(v))),
                     "radius", [&] { return msg("radius of a cell"); }))
        return;
    }
#endif
    cells.push_back(cv[pick]);
    cc.insert(cv[pick]);
    hist += "," + std::to_string(cv[pick]);
    h.add(cv[pick]);
  }
  c.count("criterion_" + std::to_string(ar));
  if (cells.size() > 2) {
    c.nontrivial(h.h);
    if (m.n() < 12) c.sample("criterion " + std::to_string(ar) + " cells " + hist + " on " + m.desc() + " adj=" + str(m.adj));
  }
}
#endif

int main(int argc, char **argv) { return driver_main(argc, argv, 100 + VF_PROP, one); }
