// Mesh (graph) generators: realistic, degenerate and hostile inputs. Nothing
// of the library is used here.
#pragma once
#include "core.h"

namespace vf {

using Ix = unsigned long;

struct Mesh {
  std::string kind;
  int dim = 2;
  std::vector<Ix> idx, adj;
  std::vector<double> w, vol, prio;
  std::vector<std::vector<double>> ctr;
  std::vector<int> nb;
  bool cartesian = false;            // structured, axis-aligned
  bool exact = false;                // dyadic geometry: sums and products are exact
  std::vector<std::array<long, 3>> ijk;  // for structured meshes, per cell
  std::vector<Ix> wall;              // cells on the "wall" (j=0) if meaningful

  size_t n() const { return idx.empty() ? 0 : idx.size() - 1; }
  size_t deg(Ix i) const { return idx[i + 1] - idx[i]; }
  std::string desc() const {
    std::ostringstream o;
    o << kind << " dim=" << dim << " n=" << n() << " edges=" << adj.size() / 2;
    return o.str();
  }
  std::string full() const {
    std::ostringstream o;
    o.precision(17);
    o << desc() << " idx=" << str(idx, 400) << " adj=" << str(adj, 1500) << " w=" << str(w, 1500)
      << " vol=" << str(vol, 400) << " prio=" << str(prio, 400) << " nb=" << str(nb, 400) << " ctr=[";
    for (size_t i = 0; i < ctr.size() && i < 400; ++i) o << (i ? "," : "") << str(ctr[i]);
    o << "]";
    return o.str();
  }
};

/** Edge list under construction */
struct Edges {
  size_t n = 0;
  std::vector<std::map<Ix, double>> nbr;
  explicit Edges(size_t n_) : n(n_), nbr(n_) {}
  void add(Ix a, Ix b, double w) {
    if (a == b) return;
    nbr[a][b] = w;
    nbr[b][a] = w;
  }
  bool has(Ix a, Ix b) const { return nbr[a].count(b) > 0; }
};

inline void to_crs(const Edges &e, Mesh &m) {
  m.idx.assign(1, 0);
  m.adj.clear();
  m.w.clear();
  for (size_t i = 0; i < e.n; ++i) {
    for (const auto &[j, w] : e.nbr[i]) {
      m.adj.push_back(j);
      m.w.push_back(w);
    }
    m.idx.push_back(m.adj.size());
  }
}

/** Renumber the cells: new number of cell i is perm[i] */
inline void renumber(Mesh &m, const std::vector<Ix> &perm) {
  const size_t n = m.n();
  Mesh o = m;
  std::vector<Ix> inv(n);
  for (size_t i = 0; i < n; ++i) inv[perm[i]] = i;
  m.idx.assign(1, 0);
  m.adj.clear();
  m.w.clear();
  for (size_t k = 0; k < n; ++k) {
    const Ix i = inv[k];
    for (Ix e = o.idx[i]; e < o.idx[i + 1]; ++e) {
      m.adj.push_back(perm[o.adj[e]]);
      m.w.push_back(o.w[e]);
    }
    m.idx.push_back(m.adj.size());
    m.vol[k] = o.vol[i];
    m.ctr[k] = o.ctr[i];
    if (!o.prio.empty()) m.prio[k] = o.prio[i];
    if (!o.nb.empty()) m.nb[k] = o.nb[i];
    if (!o.ijk.empty()) m.ijk[k] = o.ijk[i];
  }
  for (auto &c : m.wall) c = perm[c];
}

/** Shuffle the order in which the neighbours of each cell are listed */
inline void shuffle_rows(Mesh &m, Rng &r) {
  for (size_t i = 0; i < m.n(); ++i) {
    std::vector<std::pair<Ix, double>> row;
    for (Ix e = m.idx[i]; e < m.idx[i + 1]; ++e) row.emplace_back(m.adj[e], m.w[e]);
    r.shuffle(row);
    for (size_t k = 0; k < row.size(); ++k) {
      m.adj[m.idx[i] + k] = row[k].first;
      m.w[m.idx[i] + k] = row[k].second;
    }
  }
}

inline std::vector<double> spacing(Rng &r, long n, int mode, double h0) {
  std::vector<double> h(n, h0);
  if (mode == 1) {  // geometric stretching
    const double q = r.pick(std::vector<double>{1.0625, 1.25, 1.5, 2.0});
    double c = h0;
    for (auto &x : h) {
      x = c;
      c = std::min(c * q, 1e6 * h0);
    }
  } else if (mode == 2) {
    for (auto &x : h) x = h0 * static_cast<double>(r.in(1, 8)) * 0.5;
  } else if (mode == 3) {
    for (auto &x : h) x = h0 * r.real(0.2, 3.);
  }
  return h;
}

/** Structured grid; periodic in x on demand; random holes on demand.
 *  hx/hy/hz give the spacings. nz = 1 and dim = 2 for 2D. */
inline Mesh cartesian(int dim, const std::vector<double> &hx, const std::vector<double> &hy,
                      const std::vector<double> &hz, bool per_x, const std::vector<char> &hole) {
  Mesh m;
  m.kind = "cart";
  m.dim = dim;
  m.cartesian = true;
  const long nx = hx.size(), ny = hy.size(), nz = dim == 3 ? hz.size() : 1;
  auto lin = [&](long i, long j, long k) { return i + nx * (j + ny * k); };
  std::vector<long> id(nx * ny * nz, -1);
  long c = 0;
  for (long l = 0; l < nx * ny * nz; ++l)
    if (hole.empty() || !hole[l]) id[l] = c++;
  Edges e(c);
  m.vol.resize(c);
  m.ctr.resize(c);
  m.nb.assign(c, 0);
  m.ijk.resize(c);
  std::vector<double> X(nx), Y(ny), Z(nz, 0.);
  auto mid = [](const std::vector<double> &h, std::vector<double> &x) {
    double s = 0;
    for (size_t i = 0; i < h.size(); ++i) {
      x[i] = s + h[i] / 2;
      s += h[i];
    }
  };
  mid(hx, X);
  mid(hy, Y);
  if (dim == 3) mid(hz, Z);
  for (long k = 0; k < nz; ++k)
    for (long j = 0; j < ny; ++j)
      for (long i = 0; i < nx; ++i) {
        const long a = id[lin(i, j, k)];
        if (a < 0) continue;
        const double dz = dim == 3 ? hz[k] : 1.;
        m.vol[a] = hx[i] * hy[j] * dz;
        m.ctr[a] = dim == 3 ? std::vector<double>{X[i], Y[j], Z[k]} : std::vector<double>{X[i], Y[j]};
        m.ijk[a] = {i, j, k};
        auto face = [&](long i2, long j2, long k2, double area) {
          if (per_x) i2 = (i2 + nx) % nx;
          if (i2 < 0 || j2 < 0 || k2 < 0 || i2 >= nx || j2 >= ny || k2 >= nz
              || id[lin(i2, j2, k2)] < 0) {
            m.nb[a]++;
            return;
          }
          const long b = id[lin(i2, j2, k2)];
          if (b != a) e.add(a, b, area);
        };
        face(i - 1, j, k, hy[j] * dz);
        face(i + 1, j, k, hy[j] * dz);
        face(i, j - 1, k, hx[i] * dz);
        face(i, j + 1, k, hx[i] * dz);
        if (dim == 3) {
          face(i, j, k - 1, hx[i] * hy[j]);
          face(i, j, k + 1, hx[i] * hy[j]);
        }
        if (j == 0) m.wall.push_back(a);
      }
  to_crs(e, m);
  return m;
}

/** 2D: some (or all) quads of a grid cut in two triangles. */
inline Mesh triangulated(Rng &r, long nx, long ny, double ptri, double hx, const std::vector<double> &hy) {
  Mesh m;
  m.kind = "tria";
  m.dim = 2;
  // Vertices
  std::vector<double> y(ny + 1, 0.);
  for (long j = 0; j < ny; ++j) y[j + 1] = y[j] + hy[j];
  auto vid = [&](long i, long j) { return i + (nx + 1) * j; };
  auto vx = [&](long v) { return std::array<double, 2>{hx * (v % (nx + 1)), y[v / (nx + 1)]}; };
  std::vector<std::vector<long>> cells;
  std::vector<std::array<long, 3>> ijk;
  for (long j = 0; j < ny; ++j)
    for (long i = 0; i < nx; ++i) {
      const long a = vid(i, j), b = vid(i + 1, j), c = vid(i + 1, j + 1), d = vid(i, j + 1);
      if (r.chance(ptri)) {
        if (r.chance(0.5)) {
          cells.push_back({a, b, c});
          cells.push_back({a, c, d});
        } else {
          cells.push_back({a, b, d});
          cells.push_back({b, c, d});
        }
      } else
        cells.push_back({a, b, c, d});
    }
  const size_t n = cells.size();
  m.vol.resize(n);
  m.ctr.assign(n, {0., 0.});
  m.nb.assign(n, 0);
  Edges e(n);
  std::map<std::pair<long, long>, std::vector<Ix>> faces;
  for (size_t k = 0; k < n; ++k) {
    const auto &v = cells[k];
    double ar = 0;
    for (size_t q = 0; q < v.size(); ++q) {
      const auto p = vx(v[q]), s = vx(v[(q + 1) % v.size()]);
      ar += p[0] * s[1] - p[1] * s[0];
      m.ctr[k][0] += p[0] / v.size();
      m.ctr[k][1] += p[1] / v.size();
      faces[std::minmax(v[q], v[(q + 1) % v.size()])].push_back(k);
    }
    m.vol[k] = std::fabs(ar) / 2;
  }
  for (const auto &[f, cs] : faces) {
    const auto p = vx(f.first), s = vx(f.second);
    const double len = std::sqrt((p[0] - s[0]) * (p[0] - s[0]) + (p[1] - s[1]) * (p[1] - s[1]));
    if (cs.size() == 2)
      e.add(cs[0], cs[1], len);
    else
      m.nb[cs[0]]++;
    if (cs.size() == 1 && f.first < nx + 1 && f.second < nx + 1) m.wall.push_back(cs[0]);
  }
  to_crs(e, m);
  return m;
}

/** 3D: prisms, extruded from a 2D mesh */
inline Mesh extrude(const Mesh &b, long nz, double hz) {
  Mesh m;
  m.kind = b.kind + "-extruded";
  m.dim = 3;
  const size_t nb_ = b.n(), n = nb_ * nz;
  Edges e(n);
  m.vol.resize(n);
  m.ctr.resize(n);
  m.nb.assign(n, 0);
  for (long k = 0; k < nz; ++k)
    for (size_t i = 0; i < nb_; ++i) {
      const Ix a = i + nb_ * k;
      m.vol[a] = b.vol[i] * hz;
      m.ctr[a] = {b.ctr[i][0], b.ctr[i][1], hz * (k + 0.5)};
      m.nb[a] = b.nb[i] + (k == 0) + (k == nz - 1);
      for (Ix q = b.idx[i]; q < b.idx[i + 1]; ++q) e.add(a, b.adj[q] + nb_ * k, b.w[q] * hz);
      if (k + 1 < nz) e.add(a, a + nb_, b.vol[i]);
      if (b.nb[i] > 0 && k == 0) m.wall.push_back(a);
    }
  to_crs(e, m);
  return m;
}

/** Random points joined to their nearest neighbours (polyhedral-like) */
inline Mesh geometric(Rng &r, int dim, long n, int k, double keep) {
  Mesh m;
  m.kind = "geom";
  m.dim = dim;
  m.ctr.resize(n);
  for (auto &c : m.ctr)
    for (int d = 0; d < dim; ++d) c.push_back(r.real(0., 10.));
  m.vol.resize(n);
  for (auto &v : m.vol) v = r.real(0.1, 2.);
  Edges e(n);
  for (long i = 0; i < n; ++i) {
    std::vector<std::pair<double, long>> d;
    for (long j = 0; j < n; ++j)
      if (j != i) {
        double s = 0;
        for (int q = 0; q < dim; ++q) s += (m.ctr[i][q] - m.ctr[j][q]) * (m.ctr[i][q] - m.ctr[j][q]);
        d.emplace_back(s, j);
      }
    std::sort(d.begin(), d.end());
    for (int q = 0; q < k && q < static_cast<long>(d.size()); ++q)
      if (r.chance(keep)) e.add(i, d[q].second, r.real(0.05, 3.));
  }
  m.nb.resize(n);
  for (auto &b : m.nb) b = r.chance(0.7) ? 0 : static_cast<int>(r.in(1, dim));
  to_crs(e, m);
  return m;
}

/** Abstract graph families */
inline Mesh abstract_graph(Rng &r, int dim, int fam, long n) {
  static const char *names[] = {"path", "cycle", "star", "complete", "tree", "bipartite",
                                "caterpillar", "isolated", "sparse", "barbell", "ladder", "wheel"};
  Mesh m;
  m.dim = dim;
  m.kind = names[fam];
  Edges e(n);
  const int wmode = static_cast<int>(r.in(0, 2));
  auto wt = [&]() { return wmode == 0 ? 1. : wmode == 1 ? static_cast<double>(r.in(1, 4)) : r.real(0.1, 5.); };
  switch (fam) {
    case 0:
      for (long i = 0; i + 1 < n; ++i) e.add(i, i + 1, wt());
      break;
    case 1:
      for (long i = 0; i < n && n > 2; ++i) e.add(i, (i + 1) % n, wt());
      break;
    case 2:
      for (long i = 1; i < n; ++i) e.add(0, i, wt());
      break;
    case 3:
      for (long i = 0; i < n; ++i)
        for (long j = 0; j < i; ++j) e.add(i, j, wt());
      break;
    case 4:
      for (long i = 1; i < n; ++i) {
        const double w = wt();  // compilers differ in the order of arguments
        e.add(i, r.in(std::max(0L, i - 6), i - 1), w);
      }
      break;
    case 5: {
      const long a = std::max(1L, n / 3);
      for (long i = 0; i < a; ++i)
        for (long j = a; j < n; ++j) e.add(i, j, wt());
      break;
    }
    case 6:
      for (long i = 1; i < n; ++i) e.add(i, i % 3 == 1 ? std::max(0L, i - 3) : i - 1, wt());
      break;
    case 7:
      break;
    case 8: {
      const long ne = static_cast<long>(n * r.real(0.4, 2.));
      for (long q = 0; q < ne && n > 1; ++q) {
        const double w = wt();
        const long b = r.in(0, n - 1);
        e.add(r.in(0, n - 1), b, w);
      }
      break;
    }
    case 9: {
      const long a = n / 2;
      for (long i = 0; i < a; ++i)
        for (long j = 0; j < i; ++j) e.add(i, j, wt());
      for (long i = a; i < n; ++i)
        for (long j = a; j < i; ++j) e.add(i, j, wt());
      if (a > 0 && a < n) e.add(a - 1, a, wt());
      break;
    }
    case 10:
      for (long i = 0; i + 2 < n; ++i) {
        e.add(i, i + 2, wt());
        if (i % 2 == 0) e.add(i, i + 1, wt());
      }
      break;
    default:
      for (long i = 1; i < n; ++i) {
        e.add(0, i, wt());
        if (n > 3) e.add(i, i + 1 < n ? i + 1 : 1, wt());
      }
  }
  to_crs(e, m);
  m.vol.resize(n);
  for (auto &v : m.vol) v = wmode == 0 ? 1. : r.real(0.1, 4.);
  m.ctr.resize(n);
  const bool grid_pos = r.chance(0.3);
  for (long i = 0; i < n; ++i)
    for (int d = 0; d < dim; ++d)
      m.ctr[i].push_back(
        grid_pos ? static_cast<double>(d == 0 ? i % 7 : d == 1 ? i / 7 : (i * 5) % 3) : r.real(-5., 5.));
  m.nb.resize(n);
  for (auto &b : m.nb) b = r.chance(0.6) ? 0 : static_cast<int>(r.in(0, dim));
  return m;
}

/** Disjoint union */
inline Mesh disjoint(const Mesh &a, const Mesh &b) {
  Mesh m = a;
  m.kind = a.kind + "+" + b.kind;
  m.cartesian = false;
  m.ijk.clear();
  const Ix off = a.n(), eo = a.adj.size();
  for (size_t i = 1; i < b.idx.size(); ++i) m.idx.push_back(b.idx[i] + eo);
  for (auto x : b.adj) m.adj.push_back(x + off);
  m.w.insert(m.w.end(), b.w.begin(), b.w.end());
  m.vol.insert(m.vol.end(), b.vol.begin(), b.vol.end());
  for (const auto &c : b.ctr) {
    m.ctr.push_back(c);
    m.ctr.back()[0] += 64.;
  }
  m.nb.insert(m.nb.end(), b.nb.begin(), b.nb.end());
  m.prio.insert(m.prio.end(), b.prio.begin(), b.prio.end());
  for (auto x : b.wall) m.wall.push_back(x + off);
  return m;
}

/** Random agglomerate of a mesh (irregular polyhedra), own implementation */
inline Mesh lumped(Rng &r, const Mesh &f, int target) {
  const size_t n = f.n();
  std::vector<long> g(n, -1);
  long ng = 0;
  std::vector<Ix> order(n);
  std::iota(order.begin(), order.end(), 0);
  r.shuffle(order);
  for (Ix s : order) {
    if (g[s] >= 0) continue;
    std::vector<Ix> cur{s};
    g[s] = ng;
    const long want = r.in(1, target);
    for (size_t q = 0; q < cur.size() && static_cast<long>(cur.size()) < want; ++q)
      for (Ix e = f.idx[cur[q]]; e < f.idx[cur[q] + 1] && static_cast<long>(cur.size()) < want; ++e)
        if (g[f.adj[e]] < 0) {
          g[f.adj[e]] = ng;
          cur.push_back(f.adj[e]);
        }
    ng++;
  }
  Mesh m;
  m.kind = f.kind + "-lumped";
  m.dim = f.dim;
  Edges e(ng);
  m.vol.assign(ng, 0.);
  m.ctr.assign(ng, std::vector<double>(f.dim, 0.));
  m.nb.assign(ng, 0);
  for (size_t i = 0; i < n; ++i) {
    m.vol[g[i]] += f.vol[i];
    for (int d = 0; d < f.dim; ++d) m.ctr[g[i]][d] += f.vol[i] * f.ctr[i][d];
    m.nb[g[i]] = std::max(m.nb[g[i]], f.nb[i]);
    for (Ix q = f.idx[i]; q < f.idx[i + 1]; ++q)
      if (g[i] < g[f.adj[q]]) {
        const Ix a = g[i], b = g[f.adj[q]];
        e.add(a, b, (e.has(a, b) ? e.nbr[a][b] : 0.) + f.w[q]);
      }
  }
  for (long k = 0; k < ng; ++k)
    for (int d = 0; d < f.dim; ++d) m.ctr[k][d] /= m.vol[k];
  to_crs(e, m);
  return m;
}

inline void set_priorities(Mesh &m, Rng &r) {
  const size_t n = m.n();
  m.prio.assign(n, 1.);
  switch (r.in(0, 13)) {
    case 0:
    case 1:
      break;
    case 12:  // the smallest differences, in no order
      for (auto &x : m.prio) x = 1. + static_cast<double>(r.in(0, 8)) * 2.220446049250313e-16;
      break;
    case 13:
      for (auto &x : m.prio) x = r.chance(0.3) ? 0. : r.chance(0.5) ? -0. : 5e-324 * static_cast<double>(r.in(-2, 2));
      break;
    case 2:
      for (size_t i = 0; i < n; ++i) m.prio[i] = static_cast<double>(i);
      break;
    case 3:
      for (size_t i = 0; i < n; ++i) m.prio[i] = -static_cast<double>(i);
      break;
    case 4:
      for (auto &x : m.prio) x = static_cast<double>(r.in(0, 3));
      break;
    case 5:
      for (auto &x : m.prio) x = r.real(-1., 1.);
      break;
    case 6:
      for (auto &x : m.prio) x = -1. - static_cast<double>(r.in(0, 3));
      break;
    case 7:
      for (auto &x : m.prio) x = 0.;
      break;
    case 8:
      for (size_t i = 0; i < n; ++i) m.prio[i] = m.nb[i];
      break;
    case 9:
      for (auto &x : m.prio) x = r.chance(0.5) ? 1e300 * r.u() : -1e300 * r.u();
      break;
    case 10:
      for (auto &x : m.prio) x = r.real(0., 1e-300);
      break;
    default:
      for (size_t i = 0; i < n; ++i) m.prio[i] = static_cast<double>((i * 7919) % 101);
  }
}

/** How large and how strange the meshes should be */
struct GenOpt {
  int dim = 0;          // 0: any
  long max_n = 60;      // usual size
  bool exact = false;   // only dyadic geometry
  bool allow_graphs = true;
  bool allow_big_nb = true;
  bool allow_disjoint = true;
  bool shuffle = true;  // numbering and listing order
  bool aniso = false;   // prefer stretched structured meshes
};

/** The same mesh in another unit of length, 2^e times smaller; exact */
inline void other_unit(Mesh &m, int e) {
  for (auto &x : m.w) x = std::ldexp(x, e * (m.dim - 1));
  for (auto &x : m.vol) x = std::ldexp(x, e * m.dim);
  for (auto &p : m.ctr)
    for (auto &x : p) x = std::ldexp(x, e);
}

/** More cells than 16 bits can count */
inline Mesh huge_mesh(Rng &r, const GenOpt &o) {
  const int dim = o.dim ? o.dim : (o.aniso || r.chance(0.6) ? 2 : 3);
  const int fam = static_cast<int>(r.in(0, o.allow_graphs && !o.exact && !o.aniso ? 9 : 5));
  const double hy = o.aniso || r.chance(0.4) ? r.pick(std::vector<double>{0.25, 0.125, 8.}) : 1.;
  if (fam == 5) {  // a ribbon: very long lines
    const long len = r.in(33000, 34000);
    auto m = cartesian(2, spacing(r, 2, 0, 1.), spacing(r, len, 0, hy), {1.}, false, {});
    m.exact = o.exact;
    return m;
  }
  if (fam <= 3 || o.exact || o.aniso) {
    Mesh m;
    if (dim == 2) {
      const long nx = r.in(200, 300), ny = 67000 / nx + r.in(0, 10);
      const auto X = spacing(r, nx, 0, 1.), Y = spacing(r, ny, 0, hy);
      m = cartesian(2, X, Y, {1.}, false, {});
    } else {
      const long nx = r.in(36, 44), ny = r.in(36, 44), nz = 67000 / (nx * ny) + r.in(0, 3);
      const auto X = spacing(r, nx, 0, 1.), Y = spacing(r, ny, 0, hy), Z = spacing(r, nz, 0, 1.);
      m = cartesian(3, X, Y, Z, false, {});
    }
    m.exact = o.exact;
    return m;
  }
  if (fam == 4) return triangulated(r, r.in(180, 220), 185, 1., 1., spacing(r, 185, 0, hy));
  if (fam == 6) return abstract_graph(r, dim, 7, 66000 + r.in(0, 500));
  return abstract_graph(r, dim, fam == 7 ? 1 : fam == 8 ? 4 : 0, 66000 + r.in(0, 500));
}

inline Mesh base_mesh(Rng &r, const GenOpt &o) {
  if (huge_now) {
    huge_now = false;
    return huge_mesh(r, o);
  }
  const int dim = o.dim ? o.dim : (r.chance(0.6) ? 2 : 3);
  int fam = static_cast<int>(r.in(0, 99));
  const long nmax = std::max(1L, o.max_n);
  auto dims2 = [&](long &nx, long &ny) {
    nx = r.in(1, std::max(1L, static_cast<long>(std::sqrt(static_cast<double>(nmax)) * 1.6)));
    ny = std::max(1L, r.in(1, std::max(1L, nmax / nx)));
  };
  if (o.exact || o.aniso) fam = fam % 55;
  if (!o.allow_graphs && fam >= 80) fam = fam % 80;
  if (fam < 45) {
    long nx, ny, nz = 1;
    if (dim == 2)
      dims2(nx, ny);
    else {
      const long c = std::max(1L, static_cast<long>(std::cbrt(static_cast<double>(nmax)) * 1.4));
      nx = r.in(1, c);
      ny = r.in(1, c);
      nz = r.in(1, std::max(1L, nmax / (nx * ny)));
    }
    const int m1 = static_cast<int>(o.exact ? r.pick(std::vector<int>{0, 0, 2}) : r.pick(std::vector<int>{0, 0, 1, 2, 3}));
    const int m2 = static_cast<int>(o.exact ? r.pick(std::vector<int>{0, 0, 2}) : r.pick(std::vector<int>{0, 1, 1, 2, 3}));
    const double h = r.pick(std::vector<double>{1., 1., 0.5, 4., 0.125});
    double hy = h;
    if (o.aniso || r.chance(0.4)) hy = h * r.pick(std::vector<double>{0.5, 0.25, 0.125, 0.0625, 8.});
    auto X = spacing(r, nx, m1, h), Y = spacing(r, ny, m2, hy), Z = spacing(r, nz, m1, h);
    std::vector<char> hole;
    if (r.chance(0.2)) {
      hole.assign(nx * ny * nz, 0);
      const double ph = r.real(0.05, 0.5);
      for (auto &x : hole) x = r.chance(ph);
      hole[0] = 0;
    }
    auto m = cartesian(dim, X, Y, Z, nx > 2 && r.chance(0.12), hole);
    m.exact = o.exact;
    if (!hole.empty()) m.kind = "cart-holes";
    return m;
  }
  if (fam < 55) {
    if (o.exact) {
      GenOpt q = o;
      q.exact = true;
      long nx, ny;
      dims2(nx, ny);
      const auto Y = spacing(r, ny, 2, 1.);
      auto m = cartesian(dim, spacing(r, nx, 0, 1.), Y, {1., 1.}, false, {});
      m.exact = true;
      return m;
    }
    long nx, ny;
    dims2(nx, ny);
    nx = std::max(1L, nx / 2);
    const double hy = r.pick(std::vector<double>{1., 0.25, 0.1});
    const auto Y = spacing(r, ny, static_cast<int>(r.in(0, 1)), hy);
    auto m = triangulated(r, nx, ny, r.pick(std::vector<double>{1., 0.5, 0.2}), 1., Y);
    if (dim == 3) {
      const double hz = r.pick(std::vector<double>{1., 0.2, 3.});
      return extrude(m, r.in(1, 4), hz);
    }
    return m;
  }
  if (fam < 65) {
    const double keep = r.real(0.3, 1.);
    const int near = static_cast<int>(r.in(1, 6));
    return geometric(r, dim, r.in(1, nmax), near, keep);
  }
  if (fam < 80) {
    GenOpt q = o;
    q.max_n = nmax * 3;
    q.allow_graphs = false;
    q.dim = dim;
    long nx, ny;
    dims2(nx, ny);
    Mesh m;
    if (dim == 2) {
      const auto Y = spacing(r, ny, 3, 1.);
      m = triangulated(r, nx, ny, 0.5, 1., Y);
    } else {
      const auto Z = spacing(r, r.in(1, 4), 3, 1.), Y = spacing(r, std::min(ny, 6L), 3, 1.);
      m = cartesian(3, spacing(r, std::min(nx, 6L), 3, 1.), Y, Z, false, {});
    }
    return lumped(r, m, static_cast<int>(r.in(2, 5)));
  }
  const int gf = static_cast<int>(r.in(0, 11));
  long n = r.in(1, nmax);
  if (gf == 3 || gf == 5 || gf == 9) n = r.in(1, 14);
  if (gf == 2 || gf == 11) n = r.in(1, std::min(nmax, 40L));
  return abstract_graph(r, dim, gf, n);
}

inline Mesh gen_mesh(Rng &r, const GenOpt &o) {
  Mesh m = base_mesh(r, o);
  if (o.allow_disjoint && r.chance(0.12)) {
    GenOpt q = o;
    q.dim = m.dim;
    q.max_n = std::max(1L, o.max_n / 3);
    m = disjoint(m, base_mesh(r, q));
  }
  if (o.allow_big_nb && r.chance(0.1))
    for (auto &b : m.nb)
      if (r.chance(0.3)) b = static_cast<int>(r.chance(0.97) ? r.in(0, 7) : r.in(100, 400));
  if (o.allow_big_nb && r.chance(0.06))
    for (auto &b : m.nb) b = 0;
  set_priorities(m, r);
  if (o.shuffle) {
    const size_t n = m.n();
    std::vector<Ix> perm(n);
    std::iota(perm.begin(), perm.end(), 0);
    const long how = r.in(0, 3);
    if (how == 1) std::reverse(perm.begin(), perm.end());
    if (how == 2) r.shuffle(perm);
    if (how == 1 || how == 2) renumber(m, perm);
    if (r.chance(0.3)) shuffle_rows(m, r);
  }
  return m;
}

// ---------------------------------------------------------------- graph tools

/** Is the set of cells connected in the graph? */
inline bool connected(const Mesh &m, const std::vector<Ix> &cells) {
  if (cells.size() < 2) return true;
  std::unordered_set<Ix> in(cells.begin(), cells.end()), seen{cells[0]};
  std::vector<Ix> st{cells[0]};
  while (!st.empty()) {
    const Ix c = st.back();
    st.pop_back();
    for (Ix e = m.idx[c]; e < m.idx[c + 1]; ++e)
      if (in.count(m.adj[e]) && seen.insert(m.adj[e]).second) st.push_back(m.adj[e]);
  }
  return seen.size() == in.size();
}

inline bool adjacent(const Mesh &m, Ix a, Ix b) {
  for (Ix e = m.idx[a]; e < m.idx[a + 1]; ++e)
    if (m.adj[e] == b) return true;
  return false;
}

/** Breadth-first distances from a set through the allowed cells; -1 unreachable */
inline std::vector<long> bfs(const Mesh &m, const std::vector<Ix> &src, const std::vector<char> &allowed) {
  std::vector<long> d(m.n(), -1);
  std::vector<Ix> q;
  for (Ix s : src)
    if (d[s] < 0) {
      d[s] = 0;
      q.push_back(s);
    }
  for (size_t h = 0; h < q.size(); ++h)
    for (Ix e = m.idx[q[h]]; e < m.idx[q[h] + 1]; ++e) {
      const Ix b = m.adj[e];
      if (d[b] < 0 && (allowed.empty() || allowed[b])) {
        d[b] = d[q[h]] + 1;
        q.push_back(b);
      }
    }
  return d;
}

inline uint64_t mesh_hash(const Mesh &m) {
  Hash h;
  h.add(m.dim).addv(m.idx).addv(m.adj).addv(m.w).addv(m.vol).addv(m.prio).addv(m.nb);
  for (const auto &c : m.ctr) h.addv(c);
  return h.h;
}

}  // namespace vf
