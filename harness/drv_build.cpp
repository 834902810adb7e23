// P28: the same cases in differently compiled programs. Prints what went in and
// what came out of each; the runner compares.
#include "levels.h"
using namespace vf;
using namespace comma;

static void one(Rng &r, Ctx &c, uint64_t, long k) {
  GenOpt go;
  go.max_n = big_or(r, 60);
  Mesh m = gen_mesh(r, go);
  Params p = gen_params(r, m);
  const long levels = r.in(1, 3);
  Hash in, out;
  in.add(mesh_hash(m)).add(p.hash()).add(static_cast<uint64_t>(levels));
  std::string shown;
  for (long l = 0; l < levels; ++l) {
    const Result res = call(m, p);
    out.addv(res.f2c);
    if (p.aniso) out.addv(res.lidx).addv(res.lines);
    if (c.verbose) shown += " | " + res.desc();
    c.count("agglomerations");
    c.count("monitor_evaluations");
    std::vector<long> d;
    compute_neighbourhood_based_wall_distance<Ix, long>(m.idx, m.adj, {0}, d);
    std::vector<Ix> sel;
    filter_cells_by_n_edges<Ix, int>(m.idx, m.nb, {2, 3, 4}, sel);
    out.addv(d).addv(sel);
    if (res.f2c.size() != m.n() || std::any_of(res.f2c.begin(), res.f2c.end(), [&](Ix x) { return x >= m.n(); })) break;
    if (l == 0 && m.n() > 1 && std::set<Ix>(res.f2c.begin(), res.f2c.end()).size() < m.n()) c.nontrivial(in.h);
    if (l == 0 && m.n() > 3 && m.n() < 16) c.sample(p.desc() + " | " + m.desc() + " adj=" + str(m.adj) + " -> " + res.desc());
    m = coarsen(m, res.f2c);
    // Connections are compared as sets, sums up to rounding
    std::vector<Ix> shape(m.idx);
    for (size_t i = 0; i + 1 < m.idx.size(); ++i) {
      std::vector<Ix> v(m.adj.begin() + static_cast<long>(m.idx[i]), m.adj.begin() + static_cast<long>(m.idx[i + 1]));
      std::sort(v.begin(), v.end());
      shape.insert(shape.end(), v.begin(), v.end());
    }
    out.addv(shape).addv(m.nb);
    p.compliant.clear();
    if (p.aniso) {
      p.build = false;
      p.lidx = res.lidx;
      p.lines = res.lines;
    }
  }
  std::fprintf(c.out, "{\"type\":\"res\",\"case\":%ld,\"in\":\"%016llx\",\"out\":\"%016llx\"}\n", k,
               static_cast<unsigned long long>(in.h), static_cast<unsigned long long>(out.h));
  if (c.verbose) std::fprintf(stderr, "%s%s\n", p.desc().c_str(), shown.c_str());
}

int main(int argc, char **argv) { return driver_main(argc, argv, 128, one); }
