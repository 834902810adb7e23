// P12 order of the seeds, P13 growth from the seed, P27 growth with look-ahead.
#include "oracles.h"
#include "shape.h"
using namespace vf;
using namespace comma;

/** The documented queues of seeds, one per number of boundary faces */
struct Pool {
  std::array<std::deque<Ix>, 4> q;
  int top = -1;
  bool boundary = true, point = false;
  const Mesh *m = nullptr;
  int nb(Ix x) const { return std::clamp(m->nb[x], 0, 3); }
  /** By priority, then by number */
  std::vector<Ix> sorted(std::vector<Ix> v) const {
    std::sort(v.begin(), v.end(),
              [&](Ix a, Ix b) { return m->prio[a] > m->prio[b] || (m->prio[a] == m->prio[b] && a < b); });
    return v;
  }
  void init() {
    if (top < 0)
      for (size_t i = 0; i < m->n(); ++i) top = std::max(top, nb(i));
    std::vector<Ix> v;
    for (size_t i = 0; i < m->n(); ++i)
      if (nb(i) == top) v.push_back(i);
    v = sorted(v);
    if (point && v.size() > 1) v.resize(1);
    q[top].insert(q[top].end(), v.begin(), v.end());
  }
  std::optional<Ix> take(int l, const std::vector<char> &free) {
    while (!q[l].empty()) {
      const Ix x = q[l].front();
      q[l].pop_front();
      if (free[x]) return x;
    }
    return {};
  }
  void push(Ix x) { q[boundary || top < 0 ? nb(x) : std::min(nb(x), top)].push_back(x); }
  /** Cells of the same order */
  void update(const std::vector<Ix> &v) {
    for (int l = 3; l >= 0; --l) {
      std::vector<Ix> w;
      for (Ix x : v)
        if (nb(x) == l) w.push_back(x);
      if (boundary && !w.empty() && l > top) top = l;
      for (Ix x : sorted(w)) push(x);
    }
  }
};

/** All the choices that the rules leave open, with the state after them. Only the level from which to start
 *  anew when the queues are spoiled is open, and only with neighbourhood priority. */
static std::vector<std::pair<Ix, Pool>> choices(const Pool &in, const std::vector<char> &free) {
  std::vector<std::pair<Ix, Pool>> out;
  Pool p = in;
  if (p.top >= 0) {
    for (int l = p.top; l >= (p.boundary ? p.top : 0); --l)
      if (auto s = p.take(l, free)) {
        p.top = l;
        return {{*s, p}};
      }
  }
  std::array<std::vector<Ix>, 4> left;
  int hi = -1;
  for (size_t i = 0; i < free.size(); ++i)
    if (free[i]) {
      left[p.nb(i)].push_back(i);
      hi = std::max(hi, p.nb(i));
    }
  for (int l = hi; l >= 0; --l) {
    if (left[l].empty()) continue;
    Pool t = p;
    t.top = l;
    auto s = t.take(l, free);
    if (!s) {
      const auto v = t.sorted(left[l]);
      t.q[l].assign(v.begin(), v.end());
      s = t.take(l, free);
    }
    out.push_back({*s, t});
    if (p.boundary || l <= in.top) break;
  }
  return out;
}

/** Neighbours still free of a new coarse cell, grouped by distance from its seed */
static std::map<long, std::vector<Ix>> front(const Mesh &m, Ix seed, const std::vector<Ix> &cc, const std::vector<char> &before) {
  const auto d = bfs(m, {seed}, before);
  const std::set<Ix> in(cc.begin(), cc.end());
  std::map<long, std::set<Ix>> s;
  for (Ix x : cc)
    for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e)
      if (before[m.adj[e]] && !in.count(m.adj[e])) s[d[m.adj[e]]].insert(m.adj[e]);
  std::map<long, std::vector<Ix>> out;
  for (const auto &[k, v] : s) out[k].assign(v.begin(), v.end());
  return out;
}

static bool boundary_of(int seed) { return seed % 10 == 0; }
static bool point_of(int seed) { return seed >= 10; }

#if VF_PROP != 12
/** Looks for a way of growing that gives the cell under the documented choices */
struct Growth {
  const Mesh &m;
  const Params &p;
  std::set<Ix> cc;
  std::vector<long> ord;
  std::vector<char> allowed;
  long max_ind, budget = 20000, work = 4000;
  std::vector<Ix> cells;
  std::vector<char> in;
  struct Step {
    long size, compact, ext;
  };
  std::vector<Step> steps;

  std::vector<Ix> eligible_of(Ix x) const {
    std::vector<Ix> v;
    for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e)
      if (allowed[m.adj[e]] && !in[m.adj[e]]) v.push_back(m.adj[e]);
    return v;
  }
  std::vector<std::set<Ix>> candidates() const {
    std::set<Ix> all;
    for (Ix x : cells)
      for (Ix y : eligible_of(x)) all.insert(y);
    if (p.neigh == 0 || static_cast<int>(cells.size()) <= m.dim) return {all};
    const auto last = eligible_of(cells.back());
    if (!last.empty()) return {{last.begin(), last.end()}};
    std::vector<std::set<Ix>> out;
    for (Ix x : cells) {
      const auto v = eligible_of(x);
      if (!v.empty()) out.emplace_back(v.begin(), v.end());
    }
    return out;
  }
  long shared(Ix x) const {
    long sh = 0;
    for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e) sh += in[m.adj[e]];
    return sh;
  }
  /** Cells that may come next among those given when so many steps are foreseen; among cells of equal value and
   *  distance from the seed any may, since the shape that counts is not said for the foreseen steps */
  std::vector<Ix> foreseen(const std::set<Ix> &cand, int depth) {
    std::vector<std::pair<long, Ix>> most;
    long least = LONG_MIN;
    for (Ix x : cand) {
      const long own = shared(x);
      long lo = own, hi = own;
      if (depth > 1) {
        work--;
        cells.push_back(x);
        in[x] = 1;
        long l = LONG_MAX;
        for (const auto &next : candidates())
          for (Ix y : foreseen(next, depth - 1)) {
            const long sh = shared(y);
            l = std::min(l, sh);
            hi = std::max(hi, sh);
          }
        if (l < LONG_MAX) lo = std::max(lo, l);
        in[x] = 0;
        cells.pop_back();
        if (work < 0) return {};
      }
      least = std::max(least, lo * 1000000 - ord[x]);
      most.push_back({hi * 1000000 - ord[x], x});
    }
    std::vector<Ix> v;
    for (const auto &[k, x] : most)
      if (k >= least) v.push_back(x);
    return v;
  }
  std::set<Ix> best(const std::set<Ix> &cand) {
    // No more steps are foreseen than there are left
    const int depth = static_cast<int>(std::min<long>(p.fc_iter, max_ind - static_cast<long>(cells.size())));
    const bool ahead = depth > 1;
    const std::vector<Ix> v = foreseen(cand, depth);
    if (work < 0) {
      budget = -1;
      return {};
    }
    if (v.size() == 1) return {v[0]};
    if (ahead) return {v.begin(), v.end()};
    std::vector<double> ar;
    double lo = INFINITY;
    for (Ix x : v) {
      auto w = cells;
      w.push_back(x);
      ar.push_back(definition(p.ar, m, w, reference(m, w)));
      if (std::isnan(ar.back())) return {v.begin(), v.end()};
      lo = std::min(lo, ar.back());
    }
    std::set<Ix> s;
    for (size_t i = 0; i < v.size(); ++i)
      if (ar[i] <= lo + 1e-7 * std::fabs(lo)) s.insert(v[i]);
    return s;
  }
  /** Sizes kept in the end: as documented (a = 0), and with the count of external faces of the library, which
   *  lacks one per cell (a = 1) */
  bool keeps(long size) const {
    for (int a = 0; a < 2; ++a) {
      long bc = 0, be = 0, bs = -1;
      for (const auto &s : steps) {
        const long e = s.ext - a * s.size;
        if (s.compact > bc || (s.compact == bc && (e < be || (e == be && bs != p.goal)))) bc = s.compact, be = e, bs = s.size;
      }
      if (bs == size) return true;
    }
    return false;
  }
  bool search() {
    if (static_cast<long>(cells.size()) == max_ind) return keeps(static_cast<long>(cc.size()));
    for (const auto &cand : candidates())
      for (Ix x : best(cand)) {
        if (cells.size() < cc.size() && !cc.count(x)) continue;
        if (--budget < 0) return true;
        cells.push_back(x);
        in[x] = 1;
        const bool eligible = static_cast<long>(cells.size()) >= p.min || static_cast<long>(cells.size()) == max_ind;
        if (eligible) {
          long c = LONG_MAX, ext = 0;
          for (Ix y : cells) {
            long d = 0;
            for (Ix e = m.idx[y]; e < m.idx[y + 1]; ++e) d += in[m.adj[e]];
            c = std::min(c, d);
            ext += static_cast<long>(m.deg(y)) + m.nb[y] - d;
          }
          steps.push_back({static_cast<long>(cells.size()), c, ext});
        }
        const bool ok = search();
        if (eligible) steps.pop_back();
        cells.pop_back();
        in[x] = 0;
        if (ok) return true;
      }
    return false;
  }
};

/** 1 yes, 0 no, -1 not decided */
static int grown(Ctx &c, const Mesh &m, const Params &p, Ix seed, const std::vector<Ix> &cc, const std::vector<char> &free) {
  const auto d = bfs(m, {seed}, free);
  long lim = std::max<long>(m.dim == 2 ? 2 : 3, p.max / m.dim);
  auto within = [&](long l) { return std::count_if(d.begin(), d.end(), [&](long x) { return x >= 0 && x <= l; }); };
  const long reach = std::count_if(d.begin(), d.end(), [](long x) { return x >= 0; });
  while (within(lim) < p.max && within(lim) < reach) lim++;
  if (within(lim) < p.goal) {
    c.count("fewer_than_goal");
    return static_cast<long>(cc.size()) == within(lim)
           && std::all_of(cc.begin(), cc.end(), [&](Ix x) { return d[x] >= 0; });
  }
  Growth g{m, p, {cc.begin(), cc.end()}, d, std::vector<char>(m.n(), 0), std::min<long>(p.max, within(lim))};
  for (size_t i = 0; i < m.n(); ++i) g.allowed[i] = d[i] > 0 && d[i] <= lim;
  g.in.assign(m.n(), 0);
  g.in[seed] = 1;
  g.cells = {seed};
  const bool ok = g.search();
  if (g.budget < 0) return -1;
  return ok;
}
#endif

#if VF_PROP == 12
/** The pool driven directly by a history of creations of coarse cells */
static void direct(Rng &r, Ctx &c) {
  Mesh m;
  m.dim = 3;
  const long n = r.in(1, big_or(r, 30));
  m.ctr.resize(n);
  m.vol.assign(n, 1.);
  m.idx.assign(n + 1, 0);
  m.nb.resize(n);
  for (auto &b : m.nb) b = static_cast<int>(r.in(0, r.chance(0.7) ? 3 : 1));
  m.prio.resize(n);
  const long style = r.in(0, 4);
  for (long i = 0; i < n; ++i)
    m.prio[i] = style == 0 ? 0. : style == 1 ? -static_cast<double>(i) : style == 2 ? static_cast<double>(i) : static_cast<double>(r.in(-2, 3));
  Pool pool;
  pool.m = &m;
  pool.boundary = r.chance(0.5);
  pool.point = r.chance(0.5);
  std::unique_ptr<Seeds_Pool<Ix, double, int>> sp;
  if (pool.boundary)
    sp = std::make_unique<Seeds_Pool_Boundary_Priority<Ix, double, int>>(m.nb, m.prio, pool.point);
  else
    sp = std::make_unique<Seeds_Pool_Neighbourhood_Priority<Ix, double, int>>(m.nb, m.prio, pool.point);
  std::string hist;
  auto msg = [&](const std::string &w) {
    return w + " |" + (pool.boundary ? " boundary" : " neighbourhood") + (pool.point ? " point" : " full") + " nb=" + str(m.nb, 200)
           + " prio=" + str(m.prio, 200) + " history:" + hist;
  };
  std::vector<bool> done(n, false);
  std::vector<char> free(n, 1);
  if (!c.require(sp->is_empty() && sp->need_initialization(done), "fresh", [&] { return msg("a new pool is not empty"); })) return;
  // As after lines: cells already agglomerated, their neighbours given first
  const bool late = pool.boundary && n > 1 && r.chance(0.35);
  if (late) {
    for (long i = 0; i < n - 1; ++i)
      if (r.chance(0.3)) done[i] = true, free[i] = 0;
    for (long q = r.in(1, 3); q > 0; --q) {
      std::vector<Ix> v;
      for (long i = 0; i < n; ++i)
        if (free[i] && r.chance(0.2)) v.push_back(i);
      if (v.empty()) continue;
      r.shuffle(v);
      hist += " +" + str(v);
      if (r.chance(0.6)) {
        sp->order_new_seeds_and_update(std::unordered_set<Ix>(v.begin(), v.end()));
        pool.update(v);
      } else {
        hist += "(as is)";
        sp->update(std::deque<Ix>(v.begin(), v.end()));
        for (Ix x : v) {
          pool.top = std::max(pool.top, pool.nb(x));
          pool.push(x);
        }
      }
    }
    c.count("started_from_neighbours");
  }
  bool need = pool.top < 0;
  for (long i = 0; i < n && !need; ++i) need = free[i] && pool.nb(i) > pool.top;
  if (need || r.chance(0.5)) {
    const bool asked = sp->need_initialization(done);
    if (!c.require(asked || !need, "need", [&] { return msg("no initialization asked for"); })) return;
    if (asked) {
      hist += " init";
      if (pool.top >= 0)
        for (long i = 0; i < n; ++i)
          if (free[i]) pool.top = std::max(pool.top, pool.nb(i));
      sp->initialize();
      pool.init();
    }
    if (!c.require(!sp->is_empty(), "initialized", [&] { return msg("the pool is empty after the initialization"); })) return;
    if (!late && !c.require(!sp->need_initialization(done), "initialized", [&] { return msg("initialization asked for again"); })) return;
  }
  std::vector<Pool> states{pool};
  Hash h;
  h.addv(m.nb).add(pool.boundary).add(pool.point);
  for (double x : m.prio) h.addd(x);
  long left = std::count(free.begin(), free.end(), 1), steps = 0;
  while (left > 0) {
    const auto s = sp->choose_new_seed(done);
    c.count("monitor_evaluations");
    if (!c.require(s.has_value() && *s < static_cast<Ix>(n) && free[*s], "seed-free", [&] { return msg("no seed, or one already agglomerated"); })) return;
    hist += " >" + std::to_string(*s);
    std::vector<Pool> next;
    std::set<Ix> want;
    for (const auto &st : states)
      for (auto &[x, t] : choices(st, free)) {
        want.insert(x);
        if (x == *s) next.push_back(t);
      }
    if (want.size() > 1) c.count("open_choices");
    if (!c.require(!next.empty(), "seed", [&] { return msg("seed " + std::to_string(*s) + " instead of " + str(std::vector<Ix>(want.begin(), want.end()))); })) return;
    states = next;
    if (states.size() > 16) states.resize(16);
    c.count("direct_seeds");
    steps++;
    h.add(*s);
    // A coarse cell with the seed and others, then its neighbours by order
    std::vector<Ix> cc{*s};
    for (long i = 0; i < n; ++i)
      if (free[i] && i != static_cast<long>(*s) && r.chance(2. / static_cast<double>(left + 1))) cc.push_back(i);
    for (Ix x : cc) {
      done[x] = true;
      free[x] = 0;
      left--;
    }
    hist += " {" + str(cc) + "}";
    for (long o = r.in(0, 3); o > 0; --o) {
      std::vector<Ix> v;
      for (long i = 0; i < n; ++i)
        if (free[i] && r.chance(3. / static_cast<double>(left + 1))) v.push_back(i);
      if (v.empty()) continue;
      r.shuffle(v);
      hist += " +" + str(v);
      if (r.chance(0.7)) {
        sp->order_new_seeds_and_update(std::unordered_set<Ix>(v.begin(), v.end()));
        for (auto &t : states) t.update(v);
      } else {
        hist += "(as is)";
        sp->update(std::deque<Ix>(v.begin(), v.end()));
        for (auto &t : states)
          for (Ix x : v) {
            if (t.boundary && t.nb(x) > t.top) t.top = t.nb(x);
            t.push(x);
          }
      }
    }
  }
  c.require(!sp->choose_new_seed(done).has_value(), "seed-after-end", [&] { return msg("a seed after the last cell"); });
  c.count("direct_histories");
  if (steps > 2) {
    c.nontrivial(h.h);
    if (n < 10) c.sample(msg("seeds as expected"));
  }
}
#endif

#if VF_PROP == 27
/** First coarse cell of a grid of stretched cells: foreseeing the next step leaves only the block */
static void strip(Rng &r, Ctx &c) {
  Mesh m;
  m.dim = 2;
  const long nx = r.in(2, 12), ny = r.in(2, 8);
  const double h = r.pick(std::vector<double>{1., 1.05, 1.25, 1.75, 1.9, 2.5, 0.6});
  auto id = [&](long x, long y) { return static_cast<Ix>(y * nx + x); };
  m.idx.push_back(0);
  for (long y = 0; y < ny; ++y)
    for (long x = 0; x < nx; ++x) {
      const std::array<std::array<long, 2>, 4> d{{{-1, 0}, {1, 0}, {0, -1}, {0, 1}}};
      for (const auto &q : d)
        if (x + q[0] >= 0 && x + q[0] < nx && y + q[1] >= 0 && y + q[1] < ny) {
          m.adj.push_back(id(x + q[0], y + q[1]));
          m.w.push_back(q[0] ? h : 1.);
        }
      m.idx.push_back(m.adj.size());
      m.ctr.push_back({static_cast<double>(x), h * static_cast<double>(y)});
      m.vol.push_back(h);
      m.prio.push_back(1.);
      m.nb.push_back(0);
    }
  const Ix seed = static_cast<Ix>(r.in(0, nx * ny - 1));
  m.prio[seed] = 2.;
  Params p;
  p.seed = r.pick(std::vector<int>{0, 1, 10, 11});
  p.ar = static_cast<int>(r.in(0, 9));
  p.fc_iter = static_cast<int>(r.in(2, 4));
  const Result res = call(m, p);
  if (!check_partition(c, m, p, res, "partition-")) return;
  std::set<long> xs, ys;
  long n = 0;
  for (Ix i = 0; i < m.n(); ++i)
    if (res.f2c[i] == res.f2c[seed]) {
      n++;
      xs.insert(static_cast<long>(i) % nx);
      ys.insert(static_cast<long>(i) / nx);
    }
  c.count("strips");
  c.count("depth_" + std::to_string(p.fc_iter));
  if (!c.require(n == 4 && xs.size() == 2 && ys.size() == 2, "block", [&] {
        return ctx_msg(m, p, res, "the coarse cell of the seed " + std::to_string(seed) + " is not a block of " + std::to_string(nx) + "x" + std::to_string(ny) + " cells");
      }))
    return;
  Hash h2;
  c.nontrivial(h2.add(mesh_hash(m)).add(p.hash()).h);
}
#endif

static void one(Rng &r, Ctx &c, uint64_t, long) {
#if VF_PROP == 12
  if (r.chance(0.4)) return direct(r, c);
#elif VF_PROP == 27
  if (r.chance(0.3)) return strip(r, c);
#endif
  GenOpt go;
  go.max_n = big_or(r, VF_PROP == 12 ? 60 : 40);
  Mesh m = gen_mesh(r, go);
  if (VF_PROP != 12 && r.chance(0.3)) {
    other_unit(m, static_cast<int>(r.in(-12, 8)));
    c.count("other_units");
  }
  ParamOpt po;
  po.corr = 0;
  if (VF_PROP != 12) po.max_iter = 1, po.aniso = r.chance(0.15), po.max_card = 10;
  else po.max_iter = 2, po.aniso = r.chance(0.3);
  Params p = gen_params(r, m, po);
  if (VF_PROP == 27) {
    // The cost grows with the number of candidates to the power of the depth
    p.fc_iter = r.chance(0.5) ? 2 : r.chance(0.6) ? 3 : 4;
    if (m.n() > 40) p.fc_iter = 2;
    else if (m.n() > 20) p.fc_iter = std::min(p.fc_iter, 3);
  }
  const Result res = call(m, p);
  if (!check_partition(c, m, p, res, "partition-")) return;
  for (auto &b : m.nb) b = std::clamp(b, 0, m.dim);
  const auto g = groups(res.f2c);
  const auto an = aniso_flags(p, res, g.size());
  std::vector<char> free(m.n(), 1);
  Pool pool;
  pool.m = &m;
  pool.boundary = boundary_of(p.seed);
  pool.point = point_of(p.seed);
  const bool lines = std::count(an.begin(), an.end(), 1) > 0;
  if (!m.n()) return;
  pool.init();
  std::vector<Pool> states{pool};
  long judged = 0;
  bool restarted = false;
  for (size_t k = 0; k < g.size(); ++k) {
    if (!an[k]) {
      const std::set<Ix> in(g[k].begin(), g[k].end());
      auto fail = [&](const std::string &w) {
        return ctx_msg(m, p, res, "coarse cell " + std::to_string(k) + " " + str(g[k]) + ": " + w);
      };
#if VF_PROP == 12
      c.count("monitor_evaluations");
      if (pool.boundary) {
        int top = 0, mine = 0;
        for (size_t i = 0; i < m.n(); ++i)
          if (free[i]) top = std::max(top, m.nb[i]);
        for (Ix x : g[k]) mine = std::max(mine, m.nb[x]);
        if (top > 0) c.count("boundary_seeds");
        if (!c.require(mine == top, "boundary", [&] { return fail("no cell with the most boundary faces among the remaining ones"); })) return;
      } else if ((lines || pool.point) && k > 0 && !restarted) {
        auto touches = [&](Ix x) {
          for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e)
            if (!free[m.adj[e]]) return true;
          return false;
        };
        bool any = false, mine = false;
        for (size_t i = 0; i < m.n(); ++i) any = any || (free[i] && touches(i));
        for (Ix x : g[k]) mine = mine || touches(x);
        // The queue built to go on elsewhere is then served first
        restarted = !any;
        if (any) c.count("next_to_built");
        if (!c.require(!any || mine, "next", [&] { return fail("not next to the coarse cells already built"); })) return;
        if (lines && any && an[k - 1]) {
          // The neighbours of the lines are queued in the order in which these were agglomerated
          std::vector<Ix> first;
          for (size_t q = 0; first.empty(); ++q)
            for (Ix x : g[q])
              for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e)
                if (free[m.adj[e]]) first.push_back(m.adj[e]);
          bool has = false;
          for (Ix x : first) has = has || in.count(x);
          c.count("first_after_lines");
          if (!c.require(has, "after-lines", [&] { return fail("holds none of the cells queued first by the lines, " + str(first)); })) return;
        }
      }
#endif
      std::set<Ix> want;
      std::vector<std::pair<Ix, Pool>> kept;
      if (!lines) {
        for (const auto &st : states)
          for (auto &[x, t] : choices(st, free)) {
            want.insert(x);
            if (in.count(x)) kept.push_back({x, t});
          }
#if VF_PROP == 12
        if (want.size() > 1) c.count("open_choices");
        c.count("seeds_replayed");
        if (!c.require(!kept.empty(), "replay", [&] { return fail("does not hold the seed " + str(std::vector<Ix>(want.begin(), want.end()))); })) return;
#endif
      } else
        for (Ix x : g[k]) kept.push_back({x, pool});  // any of its cells could have been the seed
#if VF_PROP != 12
      if (kept.empty()) {
        c.count("seed_unknown");  // matter of another property
        return;
      }
      int verdict = 0;
      for (auto it = kept.begin(); it != kept.end();) {
        const int v = grown(c, m, p, it->first, g[k], free);
        if (v < 0) verdict = verdict == 1 ? 1 : -1;
        if (v == 1) verdict = 1;
        if (v == 0 && !lines)
          it = kept.erase(it);
        else if (v == 1 && lines)
          break;
        else
          ++it;
      }
      c.count("monitor_evaluations");
      c.count(verdict < 0 ? "growth_not_decided" : "growth_judged");
      if (VF_PROP == 27 && verdict >= 0) c.count("growth_depth_" + std::to_string(p.fc_iter));
      if (!c.require(verdict != 0, "growth", [&] {
            return fail("not obtained from the seed " + str(std::vector<Ix>(want.begin(), want.end())) + " by the documented choices");
          }))
        return;
      if (g[k].size() > 2) judged++;
#else
      judged++;
#endif
      if (!lines) {
        states.clear();
        for (auto &[x, t] : kept) {
          for (const auto &[o, v] : front(m, x, g[k], free)) t.update(v);
          states.push_back(t);
        }
        if (states.size() > 16) states.resize(16);
      }
    }
    for (Ix x : g[k]) free[x] = 0;
  }
  c.count("order_" + std::to_string(p.seed));
  c.count(p.neigh ? "pure_front" : "extended");
  if (VF_PROP != 12) c.count("criterion_" + std::to_string(p.ar));
  if (lines) c.count("with_lines");
  if (judged > 1) {
    Hash h;
    h.add(mesh_hash(m)).add(p.hash());
    c.nontrivial(h.h);
    if (m.n() > 3 && m.n() < 16) c.sample(p.desc() + " | " + m.desc() + " adj=" + str(m.adj) + " -> " + res.desc());
  }
}

int main(int argc, char **argv) { return driver_main(argc, argv, 100 + VF_PROP, one); }
