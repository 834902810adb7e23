// P24 graph queries, P25 edited sub-graphs, P26 coarse-cell container, P33 tagging of anisotropic cells.
// With VF_MIN only what the project's own tests name is used: the runner falls back
// on it when members that no test mentions have been renamed.
#include "oracles.h"
using namespace vf;
using namespace comma;
using DualG = Dual_Graph<Ix, double, int>;

static std::vector<Ix> random_subset(Rng &r, const Mesh &m, bool connected_only) {
  const long n = static_cast<long>(m.n());
  std::vector<Ix> s;
  if (n == 0) return s;
  const long want = r.in(1, std::min(n, r.chance(0.8) ? 12L : n));
  if (connected_only) {
    std::set<Ix> in;
    std::vector<Ix> front{static_cast<Ix>(r.in(0, n - 1))};
    while (!front.empty() && static_cast<long>(s.size()) < want) {
      const size_t k = r.in(0, static_cast<long>(front.size()) - 1);
      const Ix x = front[k];
      front.erase(front.begin() + k);
      if (!in.insert(x).second) continue;
      s.push_back(x);
      for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e)
        if (!in.count(m.adj[e])) front.push_back(m.adj[e]);
    }
  } else {
    std::vector<Ix> all(n);
    std::iota(all.begin(), all.end(), 0);
    r.shuffle(all);
    s.assign(all.begin(), all.begin() + want);
  }
  return s;
}

#if VF_PROP == 24
static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 60);
  const Mesh m = gen_mesh(r, go);
  if (m.n() == 0) return;
  const std::vector<Ix> none;
  DualG g(m.n(), m.idx, m.adj, m.w, m.vol, m.ctr, m.nb, m.dim, none);
  auto msg = [&](const std::string &w) { return w + " | " + m.full(); };
  // Rows
  for (size_t i = 0; i < m.n(); ++i) {
    const std::vector<Ix> wn(m.adj.begin() + m.idx[i], m.adj.begin() + m.idx[i + 1]);
    c.require(g.get_neighbours(i) == wn, "row", [&] { return msg("neighbours of " + std::to_string(i)); });
#ifndef VF_MIN
    const std::vector<double> ww(m.w.begin() + m.idx[i], m.w.begin() + m.idx[i + 1]);
    c.require(g.get_neighbours(i) == wn && g.get_weights(i) == ww
                && g.get_nb_of_neighbours(i) == static_cast<int>(wn.size())
                && std::equal(wn.begin(), wn.end(), g.neighbours_cbegin(i))
                && g.neighbours_cend(i) - g.neighbours_cbegin(i) == static_cast<long>(wn.size())
                && std::equal(ww.begin(), ww.end(), g.weights_cbegin(i))
                && g.weights_cend(i) - g.weights_cbegin(i) == static_cast<long>(wn.size()),
              "row", [&] { return msg("neighbours or weights of " + std::to_string(i)); });
    c.require(g.get_n_boundary_faces(i) == m.nb[i] && g.is_on_boundary(i) == (m.nb[i] > 0)
                && g.get_total_n_faces(i) == m.nb[i] + static_cast<int>(wn.size()),
              "faces", [&] { return msg("face counts of " + std::to_string(i)); });
    if (!wn.empty()) {
      double s = 0;
      for (double x : ww) s += x;
      const double wb = m.nb[i] * s / static_cast<double>(ww.size());
      const double gb = g.estimated_boundary_weight(i), gt = g.estimated_total_weight(i);
      c.require(std::fabs(gb - wb) <= 1e-12 * (wb + s) && std::fabs(gt - wb - s) <= 1e-12 * (wb + s), "weights", [&] {
        return msg("boundary or total weight of " + std::to_string(i) + ": " + std::to_string(gb) + " "
                   + std::to_string(gt));
      });
    }
#endif
  }
#ifndef VF_MIN
  c.require(g.get_nb_cells() == m.n(), "cells", [&] { return msg("number of cells"); });
#endif
  // Connectivity, asked several times
  std::vector<Ix> all(m.n());
  std::iota(all.begin(), all.end(), 0);
  const bool con = connected(m, all);
  c.count(con ? "connected" : "not_connected");
  for (int k = 0; k < 2; ++k)
    c.require(g.check_connectivity() == con, "connectivity",
              [&] { return msg("connectivity, call " + std::to_string(k + 1)); });
  // Sets of cells and states of the agglomeration
  for (int rep = 0; rep < 6; ++rep) {
    const auto sub = random_subset(r, m, r.chance(0.7));
    const std::unordered_set<Ix> s(sub.begin(), sub.end());
    std::vector<bool> agg(m.n(), false);
    const double pa = r.pick(std::vector<double>{0., 0.2, 0.5, 0.8});
    for (size_t i = 0; i < m.n(); ++i) agg[i] = r.chance(pa);
    const bool seeds_flagged = r.chance(0.5);
    for (Ix x : sub) agg[x] = seeds_flagged;
    // compactness
    const long wc = sub.size() > 1 ? min_internal_degree(m, sub) : 0;
    c.require(g.compute_min_fc_compactness_inside_a_cc(s) == wc, "compactness", [&] {
      return msg("compactness of " + str(sub) + ", expected " + std::to_string(wc));
    });
    const auto dict = g.compute_fc_compactness_inside_a_cc(s);
    bool ok = dict.size() == s.size();
    for (Ix x : sub) {
      long d = 0;
      for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e) d += s.count(m.adj[e]) > 0;
      const auto it = dict.find(x);
      ok = ok && it != dict.end() && it->second == d;
    }
    c.require(ok, "compactness-map", [&] { return msg("compactness per cell of " + str(sub)); });
    // not yet agglomerated neighbours
    std::set<Ix> wn;
    for (Ix x : sub)
      for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e)
        if (!agg[m.adj[e]] && !s.count(m.adj[e])) wn.insert(m.adj[e]);
    const auto gn = g.get_neighbourhood_of_cc(s, agg);
    c.require(std::set<Ix>(gn.begin(), gn.end()) == wn, "cc-neighbours",
              [&] { return msg("available neighbours of " + str(sub)); });
    // neighbourhoods by order
    const bool far = r.chance(0.05);  // far beyond the usual values
    const int order = static_cast<int>(r.in(1, far ? 40 : 4)), card = static_cast<int>(r.in(2, far ? 500 : 20));
    std::vector<long> dist(m.n(), -1);
    std::vector<Ix> cur = sub;
    for (Ix x : sub) dist[x] = 0;
    // Available cells, layer by layer: at least `order` layers, more as long as
    // there are fewer than `card` cells (seeds included)
    size_t total = sub.size();
    long lay = 0;
    while (!cur.empty() && (lay < order || static_cast<int>(total) < card)) {
      std::vector<Ix> nxt;
      for (Ix x : cur)
        for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e)
          if (dist[m.adj[e]] < 0 && !agg[m.adj[e]]) {
            dist[m.adj[e]] = lay + 1;
            nxt.push_back(m.adj[e]);
          }
      total += nxt.size();
      cur = nxt;
      lay++;
    }
    int ord = order;
    std::unordered_map<Ix, int> d;
    g.compute_neighbourhood_of_cc(s, ord, d, card, agg);
    bool same = true;
    size_t cnt = 0;
    for (size_t i = 0; i < m.n(); ++i)
      if (dist[i] > 0) {
        cnt++;
        const auto it = d.find(i);
        same = same && it != d.end() && it->second == dist[i];
        if (dist[i] > 1) c.count("cells_beyond_first_order");
      }
    c.require(same && cnt == d.size(), "orders", [&] {
      std::ostringstream o;
      for (const auto &[k, v] : d) o << k << ":" << v << " ";
      return msg("neighbourhood of " + str(sub) + " order " + std::to_string(order) + " card " + std::to_string(card)
                 + ": got " + o.str() + " distances " + str(dist, 400));
    });
    Hash h;
    h.add(mesh_hash(m)).addv(sub).add(order).add(card).addd(pa);
    if (cnt > 0) {
      c.nontrivial(h.h);
      if (m.n() < 12) c.sample("cells " + str(sub) + " on " + m.desc() + " adj=" + str(m.adj) + " distances " + str(dist));
    }
  }
}

#elif VF_PROP == 25
using Sub = Subgraph<Ix, double, int>;

/** Compare with the sub-graph induced by the present nodes */
static bool judge(Ctx &c, Sub &s, const Mesh &m, const std::set<Ix> &present, bool ask, const std::string &hist) {
  auto fail = [&](const std::string &k, const std::string &w) {
    std::string rows;
#ifndef VF_MIN
    rows = " row=" + str(s._m_CRS_Row_Ptr) + " col=" + str(s._m_CRS_Col_Ind);
#endif
    c.violation(k, w + " after " + hist + " | map=" + str(s._mapping_l_to_g) + rows + " val=" + str(s._m_CRS_Values) + " | "
                     + m.full());
    return false;
  };
  c.count("monitor_evaluations");
  const auto &map = s._mapping_l_to_g;
  if (std::set<Ix>(map.begin(), map.end()) != present || map.size() != present.size())
    return fail("nodes", "nodes differ from the inserted ones");
  if (s._volumes.size() != map.size()) return fail("sizes", "arrays of inconsistent size");
#ifndef VF_MIN
  if (s._m_CRS_Row_Ptr.size() != map.size() + 1
      || s._m_CRS_Col_Ind.size() != s._m_CRS_Values.size() || s._m_CRS_Row_Ptr.back() != s._m_CRS_Col_Ind.size())
    return fail("sizes", "arrays of inconsistent size");
#endif
  if (s._cardinality != static_cast<int>(map.size()) || s._number_of_cells != map.size())
    return fail("cardinality", "cardinality");
  long comp = static_cast<long>(map.size());
  size_t first = 0;
  for (size_t l = 0; l < map.size(); ++l) {
    std::map<Ix, double> want;
    for (Ix e = m.idx[map[l]]; e < m.idx[map[l] + 1]; ++e)
      if (present.count(m.adj[e])) want[m.adj[e]] = m.w[e];
#ifndef VF_MIN
    if (s._m_CRS_Row_Ptr[l] > s._m_CRS_Row_Ptr[l + 1]) return fail("rows", "row offsets decrease");
    const auto ns = s.get_neighbours(l);
    const auto ws = s.get_weights(l);
#else
    const auto ns = s.get_neighbours(l);
    if (first + ns.size() > s._m_CRS_Values.size()) return fail("sizes", "too few weights");
    const std::vector<double> ws(s._m_CRS_Values.begin() + first, s._m_CRS_Values.begin() + first + ns.size());
#endif
    first += ns.size();
    std::map<Ix, double> got;
    for (size_t q = 0; q < ns.size(); ++q) {
      if (ns[q] >= map.size()) return fail("rows", "neighbour out of range");
      got[map[ns[q]]] = ws[q];
    }
    if (ns.size() != got.size() || got != want)
      return fail("connections", "connections or weights of node " + std::to_string(map[l]));
    if (s._volumes[l] != m.vol[map[l]]) return fail("volume", "volume of node " + std::to_string(map[l]));
    comp = std::min(comp, static_cast<long>(want.size()));
  }
#ifndef VF_MIN
  if (s._compactness != comp) return fail("compactness", "compactness " + std::to_string(s._compactness));
#endif
  if (ask) {
    const std::vector<Ix> v(present.begin(), present.end());
    const bool con = connected(m, v);
    c.count(con ? "connected" : "not_connected");
    if (s.check_connectivity() != con) return fail("connectivity", "connectivity answer");
  }
  return true;
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 40);
  const Mesh m = gen_mesh(r, go);
  if (m.n() < 2) return;
  auto start = random_subset(r, m, r.chance(0.6));
  std::set<Ix> present(start.begin(), start.end());
  std::vector<Ix> row{0}, col;
  std::vector<double> val, vol;
  std::map<Ix, Ix> loc;
  for (size_t k = 0; k < start.size(); ++k) loc[start[k]] = k;
  for (Ix x : start) {
    for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e)
      if (present.count(m.adj[e])) {
        col.push_back(loc[m.adj[e]]);
        val.push_back(m.w[e]);
      }
    row.push_back(col.size());
    vol.push_back(m.vol[x]);
  }
  std::ostringstream hist;
  hist << "start " << str(start);
  Hash h;
  h.add(mesh_hash(m)).addv(start);
  bool ok = true;
#ifndef VF_MIN
  const bool plain = r.chance(0.75);
#else
  const bool plain = true;
#endif
  if (plain) {
    Sub s(start.size(), row, col, val, vol, start, true);
    ok = judge(c, s, m, present, r.chance(0.5), hist.str());
    const long nops = r.chance(0.985) ? r.in(1, 14) : r.in(40, 150);
    long ins = 0, rem = 0;
    for (long q = 0; ok && q < nops; ++q) {
      const bool can_ins = present.size() < m.n(), can_rem = present.size() > 1;
      if (can_ins && (!can_rem || r.chance(0.55))) {
        std::vector<Ix> absent;
        for (Ix i = 0; i < m.n(); ++i)
          if (!present.count(i)) absent.push_back(i);
        const Ix x = r.pick(absent);
        const bool only_present = r.chance(0.4);
        std::vector<Ix> nb;
        std::vector<double> w;
        for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e)
          if (!only_present || present.count(m.adj[e])) {
            nb.push_back(m.adj[e]);
            w.push_back(m.w[e]);
          }
        s.insert_node(nb, x, m.vol[x], w);
        present.insert(x);
        hist << " +" << x;
        h.add(2 * x);
        ins++;
      } else if (can_rem) {
        const std::vector<Ix> v(present.begin(), present.end());
        const Ix x = r.pick(v);
        s.remove_node(x);
        present.erase(x);
        hist << " -" << x;
        h.add(2 * x + 1);
        rem++;
      }
      ok = judge(c, s, m, present, r.chance(0.4), hist.str());
    }
    c.count("insertions", ins);
    c.count("removals", rem);
    if (ins + rem > 1) {
      c.nontrivial(h.h);
      if (m.n() < 12) c.sample(hist.str() + " on " + m.desc() + " adj=" + str(m.adj));
    }
  }
#ifndef VF_MIN
  else {  // Through the coarse cell that owns a sub-graph
    const std::vector<Ix> none;
    auto g = std::make_shared<DualG>(m.n(), m.idx, m.adj, m.w, m.vol, m.ctr, m.nb, m.dim, none);
    const std::unordered_set<Ix> s0(start.begin(), start.end());
    Coarse_Cell_Subgraph<Ix, double, int> cc(g, 0, s0, g->compute_min_fc_compactness_inside_a_cc(s0));
    ok = judge(c, *cc._cc_graph, m, present, r.chance(0.3), hist.str());
    for (long q = r.in(1, 5); ok && q > 0 && present.size() < m.n(); --q) {
      std::vector<Ix> absent;
      for (Ix i = 0; i < m.n(); ++i)
        if (!present.count(i)) absent.push_back(i);
      r.shuffle(absent);
      if (r.chance(0.5)) {
        cc.insert_cell(absent[0], std::nullopt);
        present.insert(absent[0]);
        hist << " +" << absent[0];
      } else {
        const long k = r.in(1, std::min<long>(4, static_cast<long>(absent.size())));
        std::unordered_set<Ix> s(absent.begin(), absent.begin() + k);
        cc.insert_cells(s, std::nullopt);
        present.insert(s.begin(), s.end());
        hist << " +set" << str(std::vector<Ix>(absent.begin(), absent.begin() + k));
      }
      ok = judge(c, *cc._cc_graph, m, present, r.chance(0.3), hist.str());
      cc.update_connectivity();
      const std::vector<Ix> v(present.begin(), present.end());
      ok = ok && c.require(cc._is_connected == connected(m, v), "cell-connectivity", [&] { return hist.str() + " | " + m.full(); });
      const auto &base = (const Coarse_Cell<Ix, double, int> &)cc;  // the base class is private
      ok = ok && c.require(std::set<Ix>(base._s_fc.begin(), base._s_fc.end()) == present
                             && base._cardinality == static_cast<int>(present.size())
                             && base._compactness == min_internal_degree(m, v),
                           "cell-content", [&] {
                             return "coarse cell holds " + str(std::vector<Ix>(base._s_fc.begin(), base._s_fc.end())) + " cardinality "
                               + std::to_string(base._cardinality) + " compactness " + std::to_string(base._compactness) + " after"
                               + hist.str() + " | " + m.full();
                           });
      c.count("coarse_cell_edits");
    }
  }
#endif
}

#elif VF_PROP == 26
using Cont = Coarse_Cell_Container<Ix, double, int>;

struct Cell {
  std::vector<Ix> fc;
  bool aniso;
};

static bool judge(Ctx &c, const Cont &k, const Mesh &m, const std::vector<Cell> &cells, const std::vector<char> &taken,
                  const std::string &hist) {
  auto fail = [&](const std::string &key, const std::string &w) {
    std::ostringstream o;
    o << w << " after " << hist << " | map:";
    for (size_t i = 0; i < m.n(); ++i)
      o << " " << (k._fc_2_cc[i] ? std::to_string(*k._fc_2_cc[i]) : std::string("-"));
    o << " | " << m.full();
    c.violation(key, o.str());
    return false;
  };
  c.count("monitor_evaluations");
  if (k._ccs.size() != cells.size()) return fail("number", "number of coarse cells");
  long agg = 0;
  std::vector<long> where(m.n(), -1);
  for (size_t q = 0; q < cells.size(); ++q)
    for (Ix f : cells[q].fc) where[f] = static_cast<long>(q);
  for (size_t i = 0; i < m.n(); ++i) {
    agg += taken[i];
    if (k._is_fc_agglomerated[i] != static_cast<bool>(taken[i]))
      return fail("flag", "agglomeration flag of cell " + std::to_string(i));
    const bool has = k._fc_2_cc[i].has_value();
    if (has != (where[i] >= 0) || (has && *k._fc_2_cc[i] != static_cast<Ix>(where[i])))
      return fail("map", "coarse cell of cell " + std::to_string(i) + ", expected " + std::to_string(where[i]));
  }
  if (static_cast<long>(k.get_number_of_fc_agglomerated()) != agg)
    return fail("agglomerated", "number of agglomerated cells");
  for (size_t q = 0; q < cells.size(); ++q) {
    const auto it = k._ccs.find(q);
    if (it == k._ccs.end()) return fail("numbering", "coarse cell " + std::to_string(q) + " is missing");
    const auto &cc = *it->second;
    const std::set<Ix> a(cells[q].fc.begin(), cells[q].fc.end());
#ifndef VF_MIN
    const std::set<Ix> b(cc._s_fc.begin(), cc._s_fc.end());
    if (a != b) return fail("content", "cells of coarse cell " + std::to_string(q));
    if (cc._is_isotropic == cells[q].aniso) return fail("kind", "kind of coarse cell " + std::to_string(q));
    if (cc._compactness != static_cast<int>(min_internal_degree(m, cells[q].fc)))
      return fail("compactness", "compactness degree " + std::to_string(cc._compactness) + " of coarse cell " + std::to_string(q));
#endif
    if (cc._cardinality != static_cast<int>(a.size())) return fail("size", "size of coarse cell " + std::to_string(q));
  }
  return true;
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 40);
  const Mesh m = gen_mesh(r, go);
  if (m.n() < 2) return;
  const std::vector<Ix> none;
  auto g = std::make_shared<DualG>(m.n(), m.idx, m.adj, m.w, m.vol, m.ctr, m.nb, m.dim, none);
  const int sing = r.chance(0.6) ? 1 : static_cast<int>(r.in(1, 4));
  Cont k(g, sing);
  std::vector<Cell> cells;
  std::vector<std::vector<Ix>> delayed;
  std::vector<char> taken(m.n(), 0);
  std::ostringstream hist;
  Hash h;
  h.add(mesh_hash(m)).add(sing);
  bool ok = true;
  std::vector<Ix> order(m.n());
  std::iota(order.begin(), order.end(), 0);
  r.shuffle(order);
  long n_an = 0, n_del = 0;
  bool started_iso = false;
  for (Ix x : order) {
    if (taken[x]) continue;
    // A connected group of free cells around x
    std::vector<Ix> grp{x};
    std::set<Ix> in{x};
    const long want = r.chance(0.35) ? 1 : r.in(1, 6);
    for (size_t q = 0; q < grp.size() && static_cast<long>(grp.size()) < want; ++q)
      for (Ix e = m.idx[grp[q]]; e < m.idx[grp[q] + 1] && static_cast<long>(grp.size()) < want; ++e)
        if (!taken[m.adj[e]] && in.insert(m.adj[e]).second) grp.push_back(m.adj[e]);
    const std::unordered_set<Ix> s(grp.begin(), grp.end());
    const int comp = static_cast<int>(min_internal_degree(m, grp));
    const bool aniso = !started_iso && grp.size() > 1 && r.chance(0.65);
#ifndef VF_MIN
    const bool late = !aniso && r.chance(0.25);
#else
    const bool late = false;
#endif
    started_iso = started_iso || !aniso;
    const auto id = k.create_cc(s, comp, aniso, late);
    for (Ix f : grp) taken[f] = 1;
    hist << (aniso ? " aniso" : late ? " late" : " iso") << str(grp);
    h.addv(grp).add(aniso + 2 * late);
    if (late) {
      delayed.push_back(grp);
      n_del++;
    } else {
      ok = ok && c.require(id == cells.size(), "new-number", [&] { return "number of the new coarse cell: " + std::to_string(id) + " after" + hist.str(); });
      cells.push_back({grp, aniso});
      n_an += aniso;
    }
    if (!ok) return;
    if (!late || r.chance(0.5)) ok = judge(c, k, m, cells, taken, hist.str());
    if (!ok) return;
  }
#ifndef VF_MIN
  k.cc_create_all_delayed_cc();
#endif
  for (const auto &d : delayed) cells.push_back({d, false});
  if (!judge(c, k, m, cells, taken, hist.str() + " delayed")) return;
  c.count("anisotropic", n_an);
  c.count("delayed", n_del);
  c.count("coarse_cells", static_cast<long>(cells.size()));
#ifndef VF_MIN
  if (!c.require(k.get_nb_of_cc() == cells.size(), "count", [&] { return "number of coarse cells after" + hist.str(); })) return;
  // Neighbouring coarse cells
  for (int q = 0; q < 3; ++q) {
    const Ix f = r.in(0, static_cast<long>(m.n()) - 1);
    const Ix own = *k._fc_2_cc[f];
    std::set<Ix> want;
    for (Ix e = m.idx[f]; e < m.idx[f + 1]; ++e)
      if (*k._fc_2_cc[m.adj[e]] != own) want.insert(*k._fc_2_cc[m.adj[e]]);
    const auto got = k.get_neighs_cc(f, own);
    if (!c.require(std::set<Ix>(got.begin(), got.end()) == want, "neighbours",
                   [&] { return "coarse neighbours of cell " + std::to_string(f) + " after" + hist.str() + " | " + m.full(); }))
      return;
  }
#endif
  if (r.chance(0.8)) {
    k.correct(static_cast<int>(r.in(2, 8)));
    // Whatever was merged, the bookkeeping agrees and the order is kept
    std::vector<Cell> now(k._ccs.size());
    for (size_t i = 0; i < m.n(); ++i) {
      if (!c.require(k._fc_2_cc[i].has_value() && *k._fc_2_cc[i] < now.size(), "corrected-number",
                     [&] { return "number of the coarse cell of " + std::to_string(i) + " after correction;" + hist.str() + " | " + m.full(); }))
        return;
      now[*k._fc_2_cc[i]].fc.push_back(i);
    }
    long prev = -1;
    size_t an = 0;
    for (size_t q = 0; q < cells.size(); ++q) {
      const auto &o = cells[q];
      if (o.aniso) {
        an++;
        now[q].aniso = true;
      }
      if (static_cast<int>(o.fc.size()) > sing || o.aniso) {
        const long id = static_cast<long>(*k._fc_2_cc[o.fc[0]]);
        if (!c.require(id > prev, "corrected-order", [&] { return "order of the coarse cells changed by the correction;" + hist.str() + " | " + m.full(); })) return;
        prev = id;
      }
    }
    for (size_t q = 0; q < now.size(); ++q) now[q].aniso = q < an;
    if (!judge(c, k, m, now, taken, hist.str() + " corrected")) return;
    // No cell that is too small is left next to one that could take it
    for (size_t q = an; q < now.size(); ++q) {
      if (static_cast<int>(now[q].fc.size()) > sing) continue;
      for (Ix f : now[q].fc)
        for (Ix e = m.idx[f]; e < m.idx[f + 1]; ++e) {
          const Ix o = *k._fc_2_cc[m.adj[e]];
          if (!c.require(o == q || o < an, "still-singular", [&] {
                return "coarse cell " + std::to_string(q) + " is left although next to " + std::to_string(o) + " after" + hist.str() + " corrected, threshold "
                  + std::to_string(sing) + " | " + m.full();
              }))
            return;
        }
    }
    if (now.size() < cells.size()) c.count("corrections_with_merge");
  }
  c.nontrivial(h.h);
  if (m.n() < 12) c.sample(hist.str() + " on " + m.desc());
}
#elif VF_PROP == 33
static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 60);
  go.aniso = r.chance(0.6);
  const Mesh m = gen_mesh(r, go);
  if (m.n() == 0) return;
  // Cells allowed, in any order, some of them twice
  std::vector<Ix> ok;
  const double pc = r.pick(std::vector<double>{1., 1., 0.9, 0.5, 0.1});
  for (size_t i = 0; i < m.n(); ++i)
    if (r.chance(pc)) ok.push_back(i);
  if (!ok.empty() && r.chance(0.1)) ok.push_back(ok[0]);
  if (r.chance(0.5)) r.shuffle(ok);
  DualG g(m.n(), m.idx, m.adj, m.w, m.vol, m.ctr, m.nb, m.dim, ok);
  std::vector<bool> allowed(m.n(), false);
  for (Ix i : ok) allowed[i] = true;
  for (int rep = 0; rep < 3; ++rep) {
    double thr = r.pick(std::vector<double>{-1., -1., 1., 1.5, 2., 4., 8., 16., 100., 0.});
    if (thr == 0.) thr = r.real(1., 10.);
    if (r.chance(0.3)) {  // exactly the ratio of some cell
      const size_t i = r.in(0, static_cast<long>(m.n()) - 1);
      const auto b = m.w.begin() + m.idx[i], e = m.w.begin() + m.idx[i + 1];
      if (b != e) {
        const double q = *std::max_element(b, e) / *std::min_element(b, e);
        thr = m.dim == 2 ? q : std::sqrt(q);
      }
    }
    const bool far = r.chance(0.5);
    const Ix keep = r.pick(std::vector<Ix>{0, 0, 2, 3});
    std::vector<double> alt, maxw(m.n(), 0.);
    std::vector<bool> tag(m.n(), false);
    std::deque<Ix> pool;
    g.tag_anisotropic_cells(alt, maxw, tag, pool, thr, m.prio,
                            far ? CoMMACellCouplingT::MIN_DISTANCE : CoMMACellCouplingT::MAX_WEIGHT, keep);
    auto msg = [&](const std::string &w) {
      std::ostringstream o;
      o.precision(17);
      o << w << "; threshold " << thr << (far ? " distance" : " weight") << " preserving " << keep << " compliant " << str(ok, 400)
        << " pool " << str(std::vector<Ix>(pool.begin(), pool.end()), 400) << " | " << m.full();
      return o.str();
    };
    auto d2 = [&](Ix a, Ix b) {
      double s = 0;
      for (int k = 0; k < m.dim; ++k) s += (m.ctr[a][k] - m.ctr[b][k]) * (m.ctr[a][k] - m.ctr[b][k]);
      return s;
    };
    auto near = [](double a, double b) { return a == b || std::fabs(a - b) <= 1e-10 * std::fabs(b); };
    if (!c.require(tag.size() == m.n() && maxw.size() == m.n() && alt.size() == (far ? m.w.size() : 0), "sizes",
                   [&] { return msg("sizes of the arrays given back"); }))
      return;
    std::vector<Ix> want;
    long shape = 0, below = 0;
    for (size_t i = 0; i < m.n(); ++i) {
      bool t = allowed[i];
      bool open = false;  // rounding decides
      const auto b = m.w.begin() + m.idx[i], e = m.w.begin() + m.idx[i + 1];
      const long deg = e - b;
      if (t && thr >= 0) {
        if (deg == 0) {
          t = false;
        } else {
          const double mx = *std::max_element(b, e), mn = *std::min_element(b, e);
          const double ar = m.dim == 2 ? mx / mn : std::sqrt(mx / mn);
          // Equal without any doubt only if the ratio (and the roots) are exact however they are computed
          auto pow2 = [](double x) {
            int k;
            return std::frexp(x, &k) == 0.5;
          };
          auto pow4 = [](double x) {
            int k;
            return std::frexp(x, &k) == 0.5 && k % 2 != 0;
          };
          const bool at = m.dim == 2 ? pow2(thr) && thr * mn == mx : pow4(mx) && pow4(mn) && thr * thr * mn == mx;
          if (!at && std::fabs(ar - thr) <= 1e-12 * thr) open = true;
          t = at || ar >= thr;
          if (at) c.count("exactly_at_threshold");
          if (!t) below++;
          if (t && keep) {
            // Only the cells of structured layers: quadrangles, hexahedra
            const long full = keep == 2 ? 4 : 6;
            t = deg == full || (deg == full - 1 && m.nb[i] > 0);
            if (!t) shape++;
          }
        }
      }
      if (open) {
        c.count("left_to_rounding");
        t = tag[i];
      }
      if (t) want.push_back(i);
      c.require(tag[i] == t, t ? "not-tagged" : "wrongly-tagged", [&] { return msg("cell " + std::to_string(i)); });
      if (!allowed[i]) continue;
      double mx = 0;
      for (Ix q = m.idx[i]; q < m.idx[i + 1]; ++q) {
        const double v = far ? 1. / d2(i, m.adj[q]) : m.w[q];
        mx = std::max(mx, v);
        if (far)
          c.require(near(alt[q], v), "coupling", [&] {
            return msg("coupling of " + std::to_string(i) + " and " + std::to_string(m.adj[q]) + " is " + std::to_string(alt[q]));
          });
      }
      c.require(near(maxw[i], mx), "largest",
                [&] { return msg("largest coupling of " + std::to_string(i) + " is " + std::to_string(maxw[i])); });
    }
    std::stable_sort(want.begin(), want.end(), [&](Ix a, Ix b) { return m.prio[a] > m.prio[b]; });
    c.require(std::equal(want.begin(), want.end(), pool.begin(), pool.end()), "order", [&] { return msg("order, expected " + str(want, 400)); });
    c.count("tagged", static_cast<long>(want.size()));
    c.count("below_threshold", below);
    c.count("kept_out_by_shape", shape);
    if (!want.empty()) {
      Hash h;
      h.add(mesh_hash(m)).addv(ok).addd(thr).add(far).add(keep);
      c.nontrivial(h.h);
      if (m.n() < 12) c.sample("threshold " + std::to_string(thr) + " tags " + str(want) + " on " + m.desc());
    }
  }
}
#endif

int main(int argc, char **argv) { return driver_main(argc, argv, 100 + VF_PROP, one); }
