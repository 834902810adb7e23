// P21 structured meshes.
#include "oracles.h"
using namespace vf;

static void number_and_rank(Rng &r, Mesh &m) {
  const size_t n = m.n();
  m.prio.assign(n, 1.);
  switch (r.in(0, 4)) {
    case 1:
      for (auto &x : m.prio) x = static_cast<double>(r.in(0, 3));
      break;
    case 2:
      for (auto &x : m.prio) x = r.real(-1., 1.);
      break;
    case 3:
      for (size_t i = 0; i < n; ++i) m.prio[i] = m.nb[i];
      break;
    case 4:
      for (size_t i = 0; i < n; ++i) m.prio[i] = static_cast<double>(n - i);
      break;
    default:
      break;
  }
  std::vector<Ix> perm(n);
  std::iota(perm.begin(), perm.end(), 0);
  switch (r.in(0, 2)) {
    case 1:
      std::reverse(perm.begin(), perm.end());
      break;
    case 2:
      r.shuffle(perm);
      break;
    default:
      break;
  }
  renumber(m, perm);
  if (r.chance(0.5)) shuffle_rows(m, r);
}

static void common(Rng &r, const Mesh &m, Params &p) {
  p.seed = r.pick(std::vector<int>{0, 1, 10, 11});
  p.ar = static_cast<int>(r.in(0, 9));
  p.corr = r.chance(0.5);
  p.goal = m.dim == 2 ? 4 : 8;
  p.min = p.max = p.goal;
  if (r.chance(0.5)) p.min = static_cast<int>(r.in(2, p.goal));
  if (r.chance(0.5)) p.max = static_cast<int>(r.in(p.goal, p.goal * 3 / 2));
  p.sing = static_cast<int>(r.in(1, std::max(1, p.min - 1)));
}

static bool blocks(Rng &r, Ctx &c, Hash &h) {
  const int dim = r.chance(0.5) ? 2 : 3;
  const bool large = r.chance(0.03);
  const long k = dim == 2 ? (large ? 40 : 10) : (large ? 7 : 4);
  const long nx = 2 * r.in(1, k), ny = 2 * r.in(1, k), nz = 2 * r.in(1, k);
  const int mode = static_cast<int>(r.in(0, 3));
  const double hy = r.pick(std::vector<double>{1., 1., 0.5, 0.1, 3.}), hz = r.pick(std::vector<double>{1., 1., 0.5, 0.1, 3.});
  Mesh m = cartesian(dim, spacing(r, nx, mode, 1.), spacing(r, ny, mode, hy), spacing(r, nz, mode, hz), false, {});
  number_and_rank(r, m);
  Params p;
  common(r, m, p);
  const Result res = call(m, p);
  if (!check_partition(c, m, p, res, "partition-")) return false;
  std::map<std::array<long, 3>, Ix> seen;
  std::map<Ix, std::array<long, 3>> of;
  c.count("monitor_evaluations");
  for (size_t i = 0; i < m.n(); ++i) {
    const std::array<long, 3> b{m.ijk[i][0] / 2, m.ijk[i][1] / 2, m.ijk[i][2] / 2};
    const bool ok = seen.emplace(b, res.f2c[i]).first->second == res.f2c[i] && of.emplace(res.f2c[i], b).first->second == b;
    if (!c.require(ok, "blocks", [&] {
          return ctx_msg(m, p, res, "cell " + std::to_string(i) + " not with exactly its block, grid " + std::to_string(nx) + "x"
                                      + std::to_string(ny) + (dim == 3 ? "x" + std::to_string(nz) : ""));
        }))
      return false;
  }
  c.count(dim == 2 ? "blocks2" : "blocks3", static_cast<long>(seen.size()));
  h.add(mesh_hash(m)).add(p.hash());
  if (m.n() < 20) c.sample(p.desc() + " | " + m.desc() + " -> " + res.desc());
  return seen.size() > 1;
}

static bool layer(Rng &r, Ctx &c, Hash &h) {
  const int dim = r.chance(0.6) ? 2 : 3;
  const long nx = r.in(2, dim == 2 ? 12 : 4), nz = r.in(2, 4), ny = r.in(3, 12);
  const double q = r.pick(std::vector<double>{1.1, 1.2, 1.5, 2., 3.});
  double d = r.pick(std::vector<double>{0.001, 0.01, 0.03, 0.1});
  Params p;
  p.thr = r.pick(std::vector<double>{1.5, 2., 4., 4., 8.});
  std::vector<double> hy;
  long tall = 0;
  bool inside = true;
  for (long j = 0; j < ny; ++j, d = std::min(d * q, 1.)) {
    hy.push_back(d);
    const double ar = dim == 2 ? 1. / d : std::sqrt(1. / d);
    if (std::fabs(ar - p.thr) < 1e-6 * p.thr) return false;
    inside = inside && ar > p.thr;
    tall += inside;
  }
  if (tall == ny) return false;
  Mesh m = cartesian(dim, std::vector<double>(nx, 1.), hy, std::vector<double>(nz, 1.), false, {});
  number_and_rank(r, m);
  common(r, m, p);
  p.aniso = p.build = true;
  p.odd = r.chance(0.6);
  p.force_dir = r.chance(0.5);
  p.coupling = p.force_dir ? static_cast<int>(r.in(0, 1)) : 0;  // by distance only the closest is coupled
  for (size_t i = 0; i < m.n(); ++i) p.compliant.push_back(i);
  const Result res = call(m, p);
  if (!check_partition(c, m, p, res, "partition-")) return false;
  std::map<std::pair<long, long>, std::vector<Ix>> col;
  for (size_t i = 0; i < m.n(); ++i) {
    auto &v = col[{m.ijk[i][0], m.ijk[i][2]}];
    v.resize(ny);
    v[m.ijk[i][1]] = i;
  }
  const auto g = groups(res.f2c);
  std::set<std::vector<Ix>> want, got;
  bool ok = true;
  std::string why;
  if (tall > 1)
    for (const auto &[xz, v] : col) {
      std::vector<Ix> line;
      for (long j = 0; j + 1 < tall; j += 2) {
        const long len = tall - j == 3 && p.odd ? 3 : 2;
        std::vector<Ix> cells(v.begin() + j, v.begin() + j + len);
        std::sort(cells.begin(), cells.end());
        if (g[res.f2c[v[j]]] != cells) {
          ok = false;
          why = "cells " + str(cells) + " of a column are not a coarse cell";
        }
        line.push_back(res.f2c[v[j]]);
        if (len == 3) break;
      }
      want.insert(line);
    }
  for (size_t l = 0; l + 1 < res.lidx.size(); ++l) got.emplace(res.lines.begin() + res.lidx[l], res.lines.begin() + res.lidx[l + 1]);
  if (ok && want != got) {
    ok = false;
    why = "the lines are not the columns";
  }
  c.count("monitor_evaluations");
  if (!c.require(ok, "columns", [&] {
        return ctx_msg(m, p, res, why + "; columns of " + std::to_string(tall) + " stretched cells out of " + std::to_string(ny));
      }))
    return false;
  c.count(dim == 2 ? "columns2" : "columns3", static_cast<long>(want.size()));
  h.add(mesh_hash(m)).add(p.hash());
  if (m.n() < 30) c.sample(p.desc() + " | " + m.desc() + " -> " + res.desc());
  return !want.empty();
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  Hash h;
  if (r.chance(0.6) ? blocks(r, c, h) : layer(r, c, h)) c.nontrivial(h.h);
}

int main(int argc, char **argv) { return driver_main(argc, argv, 100 + VF_PROP, one); }
