// Parameters of one agglomeration call, their generation, and the call itself.
#pragma once
#include <array>
#include <optional>
#include <stdexcept>

#include "mesh.h"

#include "CoMMA/CoMMA.h"

namespace vf {

struct Params {
  int goal = 4, min = 4, max = 4;
  int seed = 0;  // 0, 1, 10, 11
  int ar = 0;    // 0..9
  int sing = 1;
  bool corr = false;
  int fc_iter = 1;
  int neigh = 0;
  bool aniso = false, build = true, odd = true;
  double thr = 4.;
  std::optional<Ix> maxline;
  int coupling = 0;
  bool force_dir = true;
  std::vector<Ix> compliant;
  std::vector<Ix> lidx, lines;  // in
  std::string desc() const {
    std::ostringstream o;
    o.precision(17);
    o << "card(goal,min,max)=" << goal << "," << min << "," << max << " seeds=" << seed << " ar=" << ar
      << " sing=" << sing << " corr=" << corr << " iter=" << fc_iter << " neigh=" << neigh << " aniso=" << aniso;
    if (aniso)
      o << " build=" << build << " odd=" << odd << " thr=" << thr << " maxline="
        << (maxline ? std::to_string(*maxline) : "none") << " coupling=" << coupling << " dir=" << force_dir
        << " compliant=" << str(compliant, 400) << " lidx=" << str(lidx, 400) << " lines=" << str(lines, 800);
    return o.str();
  }
  uint64_t hash() const {
    Hash h;
    h.add(goal).add(min).add(max).add(seed).add(ar).add(sing).add(corr).add(fc_iter).add(neigh).add(aniso);
    if (aniso) {
      h.add(build).add(odd).addd(thr).add(maxline ? *maxline + 1 : 0).add(coupling).add(force_dir);
      h.addv(compliant).addv(lidx).addv(lines);
    }
    return h.h;
  }
};

template<typename I = Ix>
struct ResultT {
  std::vector<I> f2c, lidx, lines;
  bool operator==(const ResultT &o) const { return f2c == o.f2c && lidx == o.lidx && lines == o.lines; }
  bool operator!=(const ResultT &o) const { return !(*this == o); }
  std::string desc() const {
    return "f2c=" + str(f2c, 300) + " lidx=" + str(lidx, 100) + " lines=" + str(lines, 300);
  }
};
using Result = ResultT<Ix>;

template<typename T, typename U>
std::vector<T> conv(const std::vector<U> &v) {
  return std::vector<T>(v.begin(), v.end());
}

/** The long form of the public call, for any types */
template<typename I, typename R, typename N>
ResultT<I> call_t(const Mesh &m, const Params &p, ResultT<I> init = {}) {
  using namespace comma;
  std::vector<std::vector<R>> ctr;
  for (const auto &c : m.ctr) ctr.push_back(conv<R>(c));
  ResultT<I> res = init;
  if (p.aniso) {
    if (!p.build || !p.lidx.empty()) {
      res.lidx = conv<I>(p.lidx);
      res.lines = conv<I>(p.lines);
    }
  }
  std::optional<I> ml;
  if (p.maxline) ml = static_cast<I>(*p.maxline);
  agglomerate_one_level<I, R, N>(
    conv<I>(m.idx), conv<I>(m.adj), conv<R>(m.w), conv<R>(m.vol), ctr, conv<R>(m.prio), conv<I>(p.compliant),
    conv<N>(m.nb), p.build, p.aniso, p.odd, static_cast<R>(p.thr), static_cast<CoMMASeedsPoolT>(p.seed), res.f2c,
    res.lidx, res.lines, p.corr, static_cast<N>(m.dim), static_cast<N>(p.goal), static_cast<N>(p.min),
    static_cast<N>(p.max), static_cast<CoMMAAspectRatioT>(p.ar), static_cast<N>(p.sing), ml,
    static_cast<CoMMACellCouplingT>(p.coupling), p.force_dir, static_cast<N>(p.fc_iter),
    static_cast<CoMMANeighbourhoodT>(p.neigh));
  return res;
}

inline Result call(const Mesh &m, const Params &p, Result init = {}) {
  return call_t<Ix, double, int>(m, p, init);
}

struct ParamOpt {
  int aniso = -1;  // -1 random, 0 off, 1 on
  int corr = -1;
  int max_iter = 4;
  int max_card = 14;
  bool given_lines = true;
};

/** A random set of disjoint simple paths: what a user could give as lines.
 *  Includes lines of one cell and empty lines. */
inline void random_lines(Rng &r, const Mesh &m, std::vector<Ix> &lidx, std::vector<Ix> &lines) {
  std::vector<char> used(m.n(), 0);
  lidx.assign(1, 0);
  lines.clear();
  const long nl = r.in(1, std::max<long>(1, static_cast<long>(m.n()) / 3));
  const long maxlen = r.pick(std::vector<long>{2, 3, 4, 5, 6, 9, 30, 300});
  for (long q = 0; q < nl && m.n() > 0; ++q) {
    Ix c = r.in(0, static_cast<long>(m.n()) - 1);
    if (used[c]) continue;
    if (r.chance(0.03)) {
      lidx.push_back(lines.size());
      continue;
    }
    long len = 0;
    const long want = r.in(1, maxlen);
    while (true) {
      used[c] = 1;
      lines.push_back(c);
      if (++len >= want) break;
      std::vector<Ix> nxt;
      for (Ix e = m.idx[c]; e < m.idx[c + 1]; ++e)
        if (!used[m.adj[e]]) nxt.push_back(m.adj[e]);
      if (nxt.empty()) break;
      c = r.pick(nxt);
    }
    lidx.push_back(lines.size());
  }
}

inline Params gen_params(Rng &r, const Mesh &m, const ParamOpt &o = {}) {
  Params p;
  const long n = static_cast<long>(m.n());
  switch (r.in(0, 6)) {
    case 0:
      p.goal = p.min = p.max = m.dim == 2 ? 4 : 8;
      break;
    case 1:
      if (m.dim == 2)
        p.min = 2, p.goal = 4, p.max = 6;
      else
        p.min = 4, p.goal = 8, p.max = 12;
      break;
    case 2:
      p.goal = p.min = p.max = static_cast<int>(r.in(2, o.max_card));
      break;
    case 3:
      p.min = 2;
      p.goal = static_cast<int>(r.in(2, 4));
      p.max = static_cast<int>(r.in(p.goal, 8));
      break;
    default: {
      std::array<int, 3> c{static_cast<int>(r.in(2, o.max_card)), static_cast<int>(r.in(2, o.max_card)),
                           static_cast<int>(r.in(2, o.max_card))};
      std::sort(c.begin(), c.end());
      p.min = c[0], p.goal = c[1], p.max = c[2];
    }
  }
  if (o.max_card > 10 && r.chance(0.03)) p.max = static_cast<int>(r.in(p.max, 40));
  if (o.max_card > 10 && n > 130 && n < 2000 && r.chance(0.12)) {  // large coarse cells
    std::array<int, 3> c{static_cast<int>(r.in(2, 320)), static_cast<int>(r.in(2, 320)), static_cast<int>(r.in(100, 320))};
    std::sort(c.begin(), c.end());
    p.min = c[0], p.goal = c[1], p.max = c[2];
  }
  p.seed = r.pick(std::vector<int>{0, 1, 10, 11});
  p.ar = static_cast<int>(r.chance(0.4) ? 0 : r.in(0, 9));
  p.neigh = r.chance(0.7) ? 0 : 1;
  p.corr = o.corr < 0 ? r.chance(0.5) : o.corr != 0;
  p.sing = r.chance(0.5) ? 1 : static_cast<int>(r.in(1, std::max(1, p.min - 1)));
  p.fc_iter = 1;
  if (o.max_iter > 1 && r.chance(0.3)) {
    size_t maxdeg = 0;
    for (long i = 0; i < n; ++i) maxdeg = std::max(maxdeg, m.deg(i));
    int lim = o.max_iter;
    // The cost grows exponentially with the number of iterations
    if (n * static_cast<long>(maxdeg) > 250) lim = std::min(lim, 3);
    if (maxdeg > 8 || p.max > 14) lim = std::min(lim, 2);
    if (n > 400) lim = std::min(lim, 2);
    if (n > 900 || p.max > 40) lim = 1;
    p.fc_iter = static_cast<int>(r.in(1, lim));
  }
  p.aniso = o.aniso < 0 ? r.chance(0.45) : o.aniso != 0;
  p.thr = r.pick(std::vector<double>{-1., -0.5, 1.05, 1.5, 2., 2., 4., 4., 8., 0.5, 0.25, 0.7137, 1000.});
  p.odd = r.chance(0.6);
  p.build = !o.given_lines || r.chance(0.65);
  if (r.chance(0.35)) p.maxline = static_cast<Ix>(r.chance(0.9) ? r.in(1, 9) : r.in(10, 300));
  p.coupling = r.chance(0.65) ? 0 : 1;
  p.force_dir = r.chance(0.65);
  double pc = r.pick(std::vector<double>{1., 1., 0.8, 0.5, 0.1});
  if (n > 30000 && m.dim == 3) pc *= 0.1;  // the cost grows with the square of the number of cells next to lines
  if (p.aniso) {
    for (long i = 0; i < n; ++i)
      if (r.chance(pc)) p.compliant.push_back(i);
    if (r.chance(0.1)) std::reverse(p.compliant.begin(), p.compliant.end());
    if (!p.compliant.empty() && r.chance(0.04)) p.compliant.push_back(r.pick(p.compliant));
    if (!p.build) random_lines(r, m, p.lidx, p.lines);
  }
  return p;
}

/** Coarse cells as lists of fine cells; empty if the map is not usable */
inline std::vector<std::vector<Ix>> groups(const std::vector<Ix> &f2c) {
  std::vector<std::vector<Ix>> g;
  for (size_t i = 0; i < f2c.size(); ++i) {
    if (f2c[i] >= f2c.size()) return {};
    if (f2c[i] >= g.size()) g.resize(f2c[i] + 1);
    g[f2c[i]].push_back(i);
  }
  return g;
}

/** Coarse cells listed in the exported lines */
inline std::vector<char> aniso_flags(const Params &p, const Result &res, size_t ncc) {
  std::vector<char> f(ncc, 0);
  if (p.aniso)
    for (auto c : res.lines)
      if (c < ncc) f[c] = 1;
  return f;
}

inline long big_or(Rng &r, long usual) {
  const double u = r.u();
  if (u < 0.55) return std::max(1L, usual / 3);
  if (u < 0.93) return usual;
  if (u < 0.995) return usual * 5;
  return usual * 30;
}

}  // namespace vf
