// Monitors shared by several drivers, written from the user manual and the
// public documentation, without any library code.
#pragma once
#include "run.h"

namespace vf {

inline std::string ctx_msg(const Mesh &m, const Params &p, const Result &r, const std::string &what) {
  return what + " | " + p.desc() + " | " + m.full() + " | " + r.desc();
}

/** P01: one coarse cell per fine cell, numbered 0..n-1, anisotropic ones first */
inline bool check_partition(Ctx &c, const Mesh &m, const Params &p, const Result &r, const std::string &pre = "") {
  auto fail = [&](const std::string &k, const std::string &w) {
    c.violation(pre + k, ctx_msg(m, p, r, w));
    return false;
  };
  c.count("monitor_evaluations");
  if (r.f2c.size() != m.n()) return fail("size", "fine-to-coarse vector has the wrong size");
  std::vector<char> used(m.n(), 0);
  Ix top = 0;
  for (auto x : r.f2c) {
    if (x >= m.n()) return fail("id-range", "coarse number out of range");
    used[x] = 1;
    top = std::max(top, x);
  }
  if (m.n() > 0)
    for (Ix k = 0; k <= top; ++k)
      if (!used[k]) return fail("gap", "coarse number " + std::to_string(k) + " is not used");
  if (p.aniso && !r.lines.empty()) {
    std::set<Ix> s(r.lines.begin(), r.lines.end());
    if (*s.rbegin() != s.size() - 1 || *s.begin() != 0)
      return fail("aniso-first", "anisotropic coarse cells do not carry the smallest numbers");
    c.count("cases_with_lines");
  }
  return true;
}

/** P02 */
inline bool check_connected(Ctx &c, const Mesh &m, const Params &p, const Result &r, const std::string &pre = "") {
  const auto g = groups(r.f2c);
  for (size_t k = 0; k < g.size(); ++k) {
    c.count("monitor_evaluations");
    if (g[k].size() > 1) c.count("coarse_cells_traversed");
    if (!connected(m, g[k])) {
      c.violation(pre + "disconnected",
                  ctx_msg(m, p, r, "coarse cell " + std::to_string(k) + " " + str(g[k]) + " is not connected"));
      return false;
    }
  }
  return true;
}

/** P03: only for runs without correction */
inline bool check_cardinality(Ctx &c, const Mesh &m, const Params &p, const Result &r, const std::string &pre = "") {
  const auto g = groups(r.f2c);
  const auto an = aniso_flags(p, r, g.size());
  for (size_t k = 0; k < g.size(); ++k) {
    c.count("monitor_evaluations");
    const long sz = static_cast<long>(g[k].size());
    if (an[k]) {
      c.count("aniso_cells");
      if (sz != 2 && !(sz == 3 && p.odd)) {
        c.violation(pre + "aniso-card",
                    ctx_msg(m, p, r, "anisotropic coarse cell " + std::to_string(k) + " holds " + std::to_string(sz)));
        return false;
      }
      continue;
    }
    if (sz > p.max) {
      c.violation(pre + "above-max",
                  ctx_msg(m, p, r, "coarse cell " + std::to_string(k) + " holds " + std::to_string(sz)));
      return false;
    }
    if (sz < p.min) {
      c.count("undersized_cells");
      for (Ix f : g[k])
        for (Ix e = m.idx[f]; e < m.idx[f + 1]; ++e)
          if (r.f2c[m.adj[e]] > k) {
            c.violation(pre + "below-min",
                        ctx_msg(m, p, r,
                                "coarse cell " + std::to_string(k) + " holds only " + std::to_string(sz)
                                  + " cells though cell " + std::to_string(m.adj[e]) + " was available"));
            return false;
          }
    } else if (sz == p.max)
      c.count("full_cells");
    else
      c.count("sized_between");
  }
  return true;
}

inline long min_internal_degree(const Mesh &m, const std::vector<Ix> &cells) {
  if (cells.size() < 2) return 0;
  std::unordered_set<Ix> in(cells.begin(), cells.end());
  long best = -1;
  for (Ix x : cells) {
    long d = 0;
    for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e) d += in.count(m.adj[e]) > 0;
    if (best < 0 || d < best) best = d;
  }
  return best;
}

/** P04: the documented ranking applied to the uncorrected result. A coarse cell of
 *  more than one fine cell goes as a whole to the isotropic neighbour whose
 *  compactness it raises (smallest, then lowest number); if there is none, its
 *  fine cells are moved one by one, in an order which is nowhere promised.
 *  @return the expected corrected map, nothing if that order matters */
inline std::optional<std::vector<Ix>> correct_model(Ctx &c, const Mesh &m, const Params &p, const Result &r, int thr) {
  const size_t lim = static_cast<size_t>(thr);
  auto g = groups(r.f2c);
  const auto an = aniso_flags(p, r, g.size());
  auto f2c = r.f2c;
  std::vector<size_t> singular;
  for (size_t k = 0; k < g.size(); ++k)
    if (!an[k] && g[k].size() <= lim) singular.push_back(k);
  std::vector<char> gone(g.size(), 0);
  for (size_t k : singular) {
    if (g[k].size() > lim) continue;  // it received other cells meanwhile
    if (g[k].size() > 1) {
      std::set<Ix> around;
      for (Ix f : g[k])
        for (Ix e = m.idx[f]; e < m.idx[f + 1]; ++e) {
          const Ix o = f2c[m.adj[e]];
          if (o != k && !an[o]) around.insert(o);
        }
      if (around.empty()) continue;
      std::optional<Ix> best;
      size_t gaining = 0;
      std::set<size_t> sizes;
      for (Ix o : around) {
        auto with = g[o];
        with.insert(with.end(), g[k].begin(), g[k].end());
        if (min_internal_degree(m, with) <= min_internal_degree(m, g[o])) continue;
        ++gaining;
        sizes.insert(g[o].size());
        if (!best || g[o].size() < g[*best].size()) best = o;
      }
      if (!best) return std::nullopt;
      c.count("whole_merges");
      if (gaining > 1) c.count("whole_merges_with_choice");
      if (sizes.size() > 1) c.count("whole_merges_decided_by_size");
      for (Ix f : g[k]) {
        g[*best].push_back(f);
        f2c[f] = *best;
      }
      g[k].clear();
      gone[k] = 1;
      continue;
    }
    const Ix f = g[k][0];
    std::map<Ix, long> shared;
    for (Ix e = m.idx[f]; e < m.idx[f + 1]; ++e) {
      const Ix o = f2c[m.adj[e]];
      if (o != k && !an[o]) shared[o]++;
    }
    if (shared.empty()) continue;
    Ix best = 0;
    bool have = false;
    std::array<long, 3> best_key{};
    for (const auto &[o, sh] : shared) {
      auto with = g[o];
      with.push_back(f);
      const bool gain = min_internal_degree(m, with) > min_internal_degree(m, g[o]);
      const std::array<long, 3> key{gain ? 1 : 0, sh, -static_cast<long>(g[o].size())};
      if (!have || key > best_key) {
        have = true;
        best = o;
        best_key = key;
      }
    }
    g[best].push_back(f);
    f2c[f] = best;
    g[k].clear();
    gone[k] = 1;
  }
  std::vector<Ix> re(g.size(), 0);
  Ix q = 0;
  for (size_t k = 0; k < g.size(); ++k)
    if (!gone[k]) re[k] = q++;
  for (auto &x : f2c) x = re[x];
  return f2c;
}

inline int effective_sing(const Params &p) { return p.sing >= p.min ? p.min - 1 : p.sing; }

/** P04: r0 without, r1 with correction */
inline bool check_correction(Ctx &c, const Mesh &m, const Params &p, const Result &r0, const Result &r1) {
  auto both = [&](const std::string &w) { return ctx_msg(m, p, r1, w) + " | uncorrected " + r0.desc(); };
  const int thr = effective_sing(p);
  const auto g0 = groups(r0.f2c), g1 = groups(r1.f2c);
  const auto an0 = aniso_flags(p, r0, g0.size());
  c.count("monitor_evaluations");
  if (r0.lines != r1.lines || r0.lidx != r1.lidx) {
    c.violation("lines-changed", both("correction changed the exported lines"));
    return false;
  }
  bool any_sing = false;
  for (size_t k = 0; k < g0.size(); ++k) {
    c.count("monitor_evaluations");
    if (an0[k]) {
      if (k >= g1.size() || g1[k] != g0[k]) {
        c.violation("aniso-changed", both("anisotropic coarse cell " + std::to_string(k) + " changed"));
        return false;
      }
    } else if (static_cast<int>(g0[k].size()) > thr) {
      for (Ix f : g0[k])
        if (r1.f2c[f] != r1.f2c[g0[k][0]]) {
          c.violation("regular-split", both("coarse cell " + std::to_string(k) + " is not singular but was split"));
          return false;
        }
    } else {
      any_sing = true;
      c.count("singular_cells");
    }
  }
  // Two non-singular coarse cells are never merged, and their order is kept
  long prev = -1;
  for (size_t k = 0; k < g0.size(); ++k)
    if (static_cast<int>(g0[k].size()) > thr || an0[k]) {
      const long now = static_cast<long>(r1.f2c[g0[k][0]]);
      if (now <= prev) {
        c.violation("order", both("non-singular coarse cells merged or reordered"));
        return false;
      }
      prev = now;
    }
  const auto an1 = aniso_flags(p, r1, g1.size());
  for (size_t k = 0; k < g1.size(); ++k) {
    if (an1[k] || static_cast<int>(g1[k].size()) > thr) continue;
    c.count("singular_left");
    for (Ix f : g1[k])
      for (Ix e = m.idx[f]; e < m.idx[f + 1]; ++e) {
        const Ix o = r1.f2c[m.adj[e]];
        if (o != k && !an1[o]) {
          c.violation("singular-left", both("coarse cell " + std::to_string(k) + " " + str(g1[k])
                                            + " is singular though it touches isotropic coarse cell "
                                            + std::to_string(o)));
          return false;
        }
      }
  }
  if (!any_sing && r0 != r1) {
    c.violation("changed-without-singular", both("no singular cell, but the result changed"));
    return false;
  }
  const auto want = correct_model(c, m, p, r0, thr);
  if (want) {
    c.count("ranking_model_compared");
    if (any_sing) c.count("ranking_model_with_singular");
    if (any_sing && thr > 1) c.count("ranking_model_with_threshold");
    if (*want != r1.f2c) {
      c.violation("ranking", both("documented ranking gives " + str(*want, 300)));
      return false;
    }
  } else
    c.count("ranking_left_open");
  return true;
}

/** How a line is cut (P06): groups of positions */
inline std::vector<std::vector<Ix>> cut_line(const std::vector<Ix> &line, const Mesh &m, bool odd,
                                             const std::optional<Ix> &maxc) {
  std::vector<Ix> l = line;
  auto nbc = [&](Ix x) { return std::min(m.nb[x], m.dim); };
  const Ix a = l.front(), b = l.back();
  bool fwd;
  if (nbc(a) != nbc(b))
    fwd = nbc(a) > nbc(b);
  else if (m.prio[a] != m.prio[b])
    fwd = m.prio[a] > m.prio[b];
  else
    fwd = a < b;
  if (!fwd) std::reverse(l.begin(), l.end());
  std::vector<std::vector<Ix>> out;
  size_t pos = 0;
  Ix used = 0;
  while (l.size() - pos >= 2) {
    if (maxc && used + 2 > *maxc) break;
    std::vector<Ix> g{l[pos], l[pos + 1]};
    pos += 2;
    used += 2;
    const size_t left = l.size() - pos;
    const bool room = !maxc || used + 1 <= *maxc;
    if (odd && room && (left == 1 || (left > 1 && maxc && used + 1 == *maxc))) {
      g.push_back(l[pos++]);
      used++;
    }
    out.push_back(g);
  }
  return out;
}

/** P06: given the fine lines, everything about the anisotropic part is known */
inline bool check_line_agglomeration(Ctx &c, const Mesh &m, const Params &p, const std::vector<std::vector<Ix>> &flines,
                                     const Result &r, const std::string &pre = "") {
  std::vector<Ix> widx{0}, wl;
  std::vector<long> want(m.n(), -1);
  Ix id = 0;
  for (const auto &l : flines) {
    if (l.size() < 2) continue;
    const auto cut = cut_line(l, m, p.odd, p.maxline);
    for (const auto &g : cut) {
      c.count(g.size() == 3 ? "triples" : "pairs");
      for (Ix f : g) want[f] = static_cast<long>(id);
      wl.push_back(id++);
    }
    if (p.maxline && l.size() > *p.maxline) c.count("lines_limited");
    if (l.size() % 2) c.count("odd_lines");
    c.count("lines");
    widx.push_back(wl.size());
  }
  if (widx.size() == 1) widx.clear();
  c.count("monitor_evaluations");
  if (r.lidx != widx || r.lines != wl) {
    c.violation(pre + "export", ctx_msg(m, p, r, "exported lines differ, expected idx=" + str(widx) + " lines=" + str(wl)));
    return false;
  }
  for (size_t f = 0; f < m.n(); ++f) {
    const bool ok = want[f] >= 0 ? r.f2c[f] == static_cast<Ix>(want[f]) : r.f2c[f] >= id;
    if (!ok) {
      c.violation(pre + "grouping", ctx_msg(m, p, r, "cell " + std::to_string(f) + " should be in "
                                                       + (want[f] >= 0 ? "anisotropic coarse cell " + std::to_string(want[f])
                                                                       : std::string("an isotropic coarse cell"))));
      return false;
    }
  }
  return true;
}

/** P05: the documented line construction. @return the lines, and in `ambiguous`
 *  whether a decision was within rounding error */
inline std::vector<std::vector<Ix>> line_model(const Mesh &m, const Params &p, bool &ambiguous) {
  ambiguous = false;
  const double eps = 1e-9;
  const size_t n = m.n();
  auto near = [&](double a, double b) { return std::fabs(a - b) <= eps * std::max(std::fabs(a), std::fabs(b)); };
  std::vector<char> free_(n, 0);
  std::vector<Ix> seeds;
  double thr = p.thr;
  if (thr >= 0 && thr <= 1) thr = 1. / thr;
  std::set<Ix> comp(p.compliant.begin(), p.compliant.end());
  for (Ix i : comp) {
    if (thr >= 0) {
      double mx = 0, mn = INFINITY;
      for (Ix e = m.idx[i]; e < m.idx[i + 1]; ++e) {
        mx = std::max(mx, m.w[e]);
        mn = std::min(mn, m.w[e]);
      }
      if (m.deg(i) == 0) continue;
      double ar = mx / mn;
      if (m.dim == 3) ar = std::sqrt(ar);
      if (ar != thr && near(ar, thr)) ambiguous = true;
      if (ar == thr && m.dim == 3 && ar != std::floor(ar)) ambiguous = true;
      if (ar < thr) continue;
    }
    free_[i] = 1;
    seeds.push_back(i);
  }
  std::sort(seeds.begin(), seeds.end(),
            [&](Ix a, Ix b) { return m.prio[a] != m.prio[b] ? m.prio[a] > m.prio[b] : a < b; });
  auto coupling = [&](Ix i, Ix e) {
    if (p.coupling == 0) return m.w[e];
    double s = 0;
    for (size_t d = 0; d < m.ctr[i].size(); ++d) {
      const double x = m.ctr[i][d] - m.ctr[m.adj[e]][d];
      s += x * x;
    }
    return 1. / s;
  };
  auto dir = [&](Ix from, Ix to) {
    std::vector<double> d(m.ctr[from].size());
    double s = 0;
    for (size_t k = 0; k < d.size(); ++k) {
      d[k] = m.ctr[to][k] - m.ctr[from][k];
      s += d[k] * d[k];
    }
    s = std::sqrt(s);
    for (auto &x : d) x /= s;
    return d;
  };
  const double cos20 = std::cos(20. * 3.14159265358979323846 / 180.);
  std::vector<std::vector<Ix>> out;
  for (Ix s : seeds) {
    if (!free_[s]) continue;
    free_[s] = 0;
    std::vector<Ix> fwd, bwd;
    std::vector<double> first_dir, cur_dir;
    auto extend = [&](Ix from) -> long {
      double mx = 0;
      for (Ix e = m.idx[from]; e < m.idx[from + 1]; ++e) mx = std::max(mx, coupling(from, e));
      for (int relax = 0; relax < 2; ++relax) {
        const bool use_dir = p.force_dir && !cur_dir.empty();
        if (relax && !use_dir) break;
        long best = -1;
        double bv = 0;
        bool tie = false;
        for (Ix e = m.idx[from]; e < m.idx[from + 1]; ++e) {
          const Ix o = m.adj[e];
          if (!free_[o]) continue;
          const double cp = coupling(from, e);
          if (!relax) {
            if (near(cp, 0.9 * mx)) ambiguous = true;
            if (!(cp > 0.9 * mx)) continue;
          }
          double val = cp;
          if (use_dir) {
            const auto d = dir(from, o);
            double dot = 0;
            for (size_t k = 0; k < d.size(); ++k) dot += d[k] * cur_dir[k];
            if (near(dot, cos20)) ambiguous = true;
            if (!(dot > 0 && dot >= cos20)) continue;
            val = dot;
          }
          if (best >= 0) {
            // Ties of given weights go to the lower number, ties of computed
            // values cannot be told from rounding
            const bool exact_tie = !use_dir && (p.coupling == 0 || m.exact) && val == bv;
            if (near(val, bv) && !exact_tie) tie = true;
          }
          if (best < 0 || val > bv || (val == bv && o < static_cast<Ix>(best))) {
            if (best >= 0 && !near(val, bv)) tie = false;
            best = static_cast<long>(o);
            bv = val;
          }
        }
        if (tie) ambiguous = true;
        if (best >= 0) return best;
      }
      return -1;
    };
    Ix head = s;
    for (long nx; (nx = extend(head)) >= 0;) {
      free_[nx] = 0;
      fwd.push_back(nx);
      cur_dir = dir(head, nx);
      if (first_dir.empty()) first_dir = cur_dir;
      head = nx;
    }
    if (!fwd.empty()) {
      cur_dir = first_dir;
      for (auto &x : cur_dir) x = -x;
      head = s;
      for (long nx; (nx = extend(head)) >= 0;) {
        free_[nx] = 0;
        bwd.push_back(nx);
        cur_dir = dir(head, nx);
        head = nx;
      }
    }
    std::vector<Ix> line(bwd.rbegin(), bwd.rend());
    line.push_back(s);
    line.insert(line.end(), fwd.begin(), fwd.end());
    if (line.size() > 1) out.push_back(line);
  }
  return out;
}

/** P05: the cells of each exported line are those of the documented
 *  construction, whatever the way the line is cut (no limit of length) */
inline bool check_lines_found(Ctx &c, const Mesh &m, const Params &p, const Result &r) {
  bool amb = false;
  const auto fl = line_model(m, p, amb);
  if (amb) {
    c.count("ambiguous_rounding");
    return true;
  }
  c.count("monitor_evaluations");
  auto fail = [&](const std::string &k, const std::string &w) {
    std::string e;
    for (const auto &l : fl) e += " " + str(l);
    c.violation(k, ctx_msg(m, p, r, w + ", expected lines" + e));
    return false;
  };
  const size_t nl = r.lidx.empty() ? 0 : r.lidx.size() - 1;
  if (nl != fl.size()) return fail("number-of-lines", std::to_string(nl) + " lines");
  const auto g = groups(r.f2c);
  for (size_t l = 0; l < nl; ++l) {
    std::set<Ix> got;
    for (Ix q = r.lidx[l]; q < r.lidx[l + 1]; ++q)
      if (r.lines[q] < g.size()) got.insert(g[r.lines[q]].begin(), g[r.lines[q]].end());
    const std::set<Ix> want(fl[l].begin(), fl[l].end());
    c.count("lines");
    c.count("line_cells", static_cast<long>(got.size()));
    if (want.size() > 4) c.count("long_lines");
    std::set<Ix> miss;
    std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::inserter(miss, miss.begin()));
    bool ok = std::includes(want.begin(), want.end(), got.begin(), got.end());
    // Without groups of three, one end of an odd line is left
    ok = ok && (p.odd || want.size() % 2 == 0 ? miss.empty()
                                              : miss.size() == 1 && (*miss.begin() == fl[l].front() || *miss.begin() == fl[l].back()));
    if (!ok) return fail("line-cells", "line " + std::to_string(l) + " holds " + str(std::vector<Ix>(got.begin(), got.end())));
  }
  if (nl == 0) c.count("no_line");
  return true;
}

/** What holds of any result with lines, without knowing the fine lines */
inline bool check_line_format(Ctx &c, const Mesh &m, const Params &p, const Result &r, const std::string &pre = "") {
  auto fail = [&](const std::string &k, const std::string &w) {
    c.violation(pre + k, ctx_msg(m, p, r, w));
    return false;
  };
  c.count("monitor_evaluations");
  if (r.lidx.empty()) {
    if (!r.lines.empty()) return fail("format", "lines without offsets");
    return true;
  }
  if (r.lidx.front() != 0 || r.lidx.back() != r.lines.size() || !std::is_sorted(r.lidx.begin(), r.lidx.end()))
    return fail("format", "offsets of the lines are inconsistent");
  const auto g = groups(r.f2c);
  std::set<Ix> seen;
  for (auto x : r.lines)
    if (x >= g.size() || !seen.insert(x).second) return fail("format", "coarse cell listed twice or unknown");
  for (size_t l = 0; l + 1 < r.lidx.size(); ++l) {
    Ix cells = 0;
    for (Ix q = r.lidx[l]; q < r.lidx[l + 1]; ++q) {
      cells += g[r.lines[q]].size();
      if (q + 1 < r.lidx[l + 1]) {
        bool touch = false;
        for (Ix a : g[r.lines[q]])
          for (Ix b : g[r.lines[q + 1]]) touch = touch || adjacent(m, a, b);
        if (!touch) return fail("line-broken", "consecutive coarse cells of a line do not touch");
      }
      if (g[r.lines[q]].size() == 3 && q + 1 != r.lidx[l + 1]) return fail("triple-inside", "group of three not at the end");
    }
    if (p.maxline && *p.maxline > 0 && cells > *p.maxline) return fail("line-limit", "line uses too many cells");
  }
  return true;
}

}  // namespace vf
