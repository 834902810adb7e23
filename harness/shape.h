// Features and shape criteria of a set of cells, from their definitions.
#pragma once
#include "run.h"

namespace vf {

/** All features, recomputed from the set of cells */
struct Ref {
  double vol = 0, ext = 0, intw = 0, d2max = 0, d2min = INFINITY, total = 0;
  long faces = 0;
  std::vector<double> sum;
  std::map<Ix, long> facets;
};

inline double d2(const std::vector<double> &a, const std::vector<double> &b) {
  double s = 0;
  for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
  return s;
}

inline Ref reference(const Mesh &m, const std::vector<Ix> &cells) {
  Ref f;
  const std::set<Ix> in(cells.begin(), cells.end());
  f.sum.assign(m.ctr[0].size(), 0.);
  for (Ix x : cells) {
    f.vol += m.vol[x];
    double s = 0;
    long inside = 0;
    for (Ix e = m.idx[x]; e < m.idx[x + 1]; ++e) {
      s += m.w[e];
      if (in.count(m.adj[e])) {
        inside++;
        f.intw += m.w[e] / 2;
      } else
        f.ext += m.w[e];
    }
    f.faces += inside;
    if (m.nb[x] > 0) f.ext += m.nb[x] * s / static_cast<double>(m.deg(x));
    f.total += s + (m.nb[x] > 0 ? m.nb[x] * s / static_cast<double>(m.deg(x)) : 0.);
    f.facets[x] = static_cast<long>(m.deg(x)) + m.nb[x] - inside;
    for (size_t d = 0; d < f.sum.size(); ++d) f.sum[d] += m.vol[x] * m.ctr[x][d];
    for (Ix y : cells)
      if (x < y) {
        const double d = d2(m.ctr[x], m.ctr[y]);
        f.d2max = std::max(f.d2max, d);
        f.d2min = std::min(f.d2min, d);
      }
  }
  f.faces /= 2;
  return f;
}

/** Defining formula of each criterion; NaN if not defined for this cell */
inline double definition(int ar, const Mesh &m, const std::vector<Ix> &cells, const Ref &f, int dim = 0) {
  if (!dim) dim = m.dim;
  const double radius = dim == 1 ? f.vol : dim == 2 ? std::sqrt(f.vol) : dim == 3 ? std::cbrt(f.vol) : std::pow(f.vol, 1. / dim);
  std::vector<double> bary = f.sum;
  for (auto &x : bary) x /= f.vol;
  double bmax = 0, emax = 0, emin = INFINITY;
  for (Ix x : cells) {
    const double d = std::sqrt(d2(bary, m.ctr[x]));
    bmax = std::max(bmax, d);
    if (f.facets.at(x) > 0) {
      if (d > 1e-9) {
        emax = std::max(emax, d);
        emin = std::min(emin, d);
      } else if (d > 1e-15)
        return NAN;  // not clear on which side of the tolerance
    }
  }
  switch (ar) {
    case comma::DIAMETER_OVER_RADIUS:
      return std::sqrt(f.d2max) / radius;
    case comma::DIAMETER_OVER_MIN_EDGE:
      return cells.size() == 2 ? std::sqrt(f.d2max) : std::sqrt(f.d2max / f.d2min);
    case comma::DIAMETER:
      return std::sqrt(f.d2max);
    case comma::ONE_OVER_MEASURE:
      return 1. / f.vol;
    case comma::ONE_OVER_INTERNAL_WEIGHTS:
      return f.intw > 0 ? 1. / f.intw : NAN;
    case comma::PERIMETER_OVER_RADIUS:
      return f.ext > 1e-9 * f.total ? (dim <= 2 ? f.ext : std::pow(f.ext, 1. / (dim - 1))) / radius : NAN;
    case comma::EXTERNAL_WEIGHTS:
      return f.ext > 1e-9 * f.total ? f.ext : NAN;
    case comma::MAX_BARY_DIST_OVER_RADIUS:
      return bmax / radius;
    case comma::MAX_OVER_MIN_BARY_DIST:
      return emin < INFINITY ? emax / emin : NAN;
    default:
      return f.ext > 1e-9 * f.total ? f.ext / f.vol : NAN;
  }
}

}  // namespace vf
