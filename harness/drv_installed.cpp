// P34: the library as installed, with the types it was configured for. Prints
// what went in and what came out of each case; the runner compares.
#include "levels.h"
#include "CoMMA/Util.h"
using namespace vf;
using I = comma::CoMMAIndexT;
using R = comma::CoMMAWeightT;
using N = comma::CoMMAIntT;

#ifdef VF_TWO
// Defined in another file, which includes all the headers too
size_t other_file(const std::vector<I> &f2c);
#else
static size_t other_file(const std::vector<I> &f2c) { return f2c.size(); }
#endif

// The values fit in the real type, and what is computed from them does not
// depend on it: exact sums and products, quotients of exact numbers
static bool comparable(const Mesh &m, const Params &p) {
  if (std::is_same<R, double>::value) return true;
  bool amb = false;
  if (p.aniso && p.build) line_model(m, p, amb);
  if (!m.exact || amb || p.ar > 4) return false;
  double cmax = 0, wmin = INFINITY, wmax = 0;
  for (const auto &q : m.ctr)
    for (double x : q) cmax = std::max(cmax, std::fabs(x));
  for (double x : m.w) wmin = std::min(wmin, x), wmax = std::max(wmax, x);
  if (cmax >= 1e4 || (!m.w.empty() && wmax >= 1e4)) return false;
  if (std::is_same<R, long double>::value) return true;
  for (double x : m.prio)
    if (static_cast<float>(x) != x) return false;
  std::set<double> sp(m.vol.begin(), m.vol.end());
  return sp.size() == 1 && cmax < 32 && p.max <= 8 && p.fc_iter == 1 && (m.w.empty() || wmax == wmin);
}

static void one(Rng &r, Ctx &c, uint64_t, long k) {
  GenOpt go;
  go.max_n = 60;
  go.exact = r.chance(0.6);
  Mesh m = gen_mesh(r, go);
  Params p = gen_params(r, m);
  if (go.exact && r.chance(0.7)) {
    p.ar = static_cast<int>(r.in(0, 4));
    p.fc_iter = r.chance(0.7) ? 1 : p.fc_iter;
  }
  // Exactly representable in all the types
  p.thr = static_cast<float>(p.thr);
  if (m.n() > 250) return;
  c.count("monitor_evaluations");
  Hash in, out;
  in.add(mesh_hash(m)).add(p.hash());
  c.require(std::is_same<N, VF_INT>::value && std::is_same<I, VF_INDEX>::value && std::is_same<R, VF_REAL>::value,
            "configured-types", [] { return std::string("the types are not those given to the configuration"); });
  if (!comparable(m, p)) return;
  const auto res = call_t<I, R, N>(m, p);
  c.require(other_file(res.f2c) == res.f2c.size(), "other-file", [] { return std::string("other result in another file"); });
  out.addv(conv<Ix>(res.f2c));
  if (p.aniso) out.addv(conv<Ix>(res.lidx)).addv(conv<Ix>(res.lines));
  c.count("agglomerations");
  const auto idx = conv<I>(m.idx), adj = conv<I>(m.adj);
  const auto nb = conv<N>(m.nb);
  std::vector<long> d;
  comma::compute_neighbourhood_based_wall_distance<I, long>(idx, adj, {0}, d);
  std::vector<I> sel;
  comma::filter_cells_by_n_edges<I, N>(idx, nb, {2, 3, 4}, sel);
  out.addv(d).addv(conv<Ix>(sel));
  if (m.n() > 1 && std::set<I>(res.f2c.begin(), res.f2c.end()).size() < m.n()) {
    c.nontrivial(in.h);
    if (m.n() > 3 && m.n() < 16) c.sample(p.desc() + " | " + m.desc() + " adj=" + str(m.adj) + " -> " + res.desc());
    std::vector<std::vector<R>> ctr, cctr;
    for (const auto &x : m.ctr) ctr.push_back(conv<R>(x));
    std::vector<I> cidx, cadj;
    std::vector<R> cw, cvol, cprio;
    std::vector<N> cnb;
    comma::build_coarse_graph<I, R, N>(res.f2c, idx, adj, conv<R>(m.w), conv<R>(m.vol), ctr, conv<R>(m.prio), nb, cidx, cadj,
                                       cw, cvol, cctr, cprio, cnb);
    // Connections as sets
    std::vector<Ix> shape = conv<Ix>(cidx);
    for (size_t i = 0; i + 1 < cidx.size(); ++i) {
      std::vector<Ix> v(cadj.begin() + static_cast<long>(cidx[i]), cadj.begin() + static_cast<long>(cidx[i + 1]));
      std::sort(v.begin(), v.end());
      shape.insert(shape.end(), v.begin(), v.end());
    }
    out.addv(shape).addv(conv<int>(cnb));
    c.count("coarse_graphs");
  }
  std::fprintf(c.out, "{\"type\":\"res\",\"case\":%ld,\"in\":\"%016llx\",\"out\":\"%016llx\"}\n", k,
               static_cast<unsigned long long>(in.h), static_cast<unsigned long long>(out.h));
  if (c.verbose) std::fprintf(stderr, "%s | %s\n", p.desc().c_str(), res.desc().c_str());
}

int main(int argc, char **argv) { return driver_main(argc, argv, 134, one); }
