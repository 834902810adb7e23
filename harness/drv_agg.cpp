// P01 P02 P03 P04 P05 P06: agglomeration calls watched by the monitors.
#include "oracles.h"
using namespace vf;
#ifndef VF_PROP
#define VF_PROP 1
#endif

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  ParamOpt po;
  go.max_n = big_or(r, 60);
#if VF_PROP == 3
  po.corr = 0;
#elif VF_PROP == 4
  po.corr = 1;
  po.max_iter = 2;
#elif VF_PROP == 5
  po.aniso = 1;
  po.given_lines = false;
  po.max_iter = 1;
  go.aniso = r.chance(0.7);
  go.exact = r.chance(0.5);
#elif VF_PROP == 6
  po.aniso = 1;
  go.aniso = r.chance(0.4);
#endif
  Mesh m = gen_mesh(r, go);
  Params p = gen_params(r, m, po);
#if VF_PROP == 4
  if (r.chance(0.5)) {  // small fixed cardinalities on irregular meshes leave singular cells
    p.goal = p.min = p.max = static_cast<int>(r.in(2, 5));
    p.sing = r.chance(0.6) ? 1 : static_cast<int>(r.in(1, 6));
  }
#endif
#if VF_PROP == 5
  p.maxline.reset();
  p.odd = r.chance(0.7);
#endif
#if VF_PROP == 6
  p.build = r.chance(0.3);
  p.lidx.clear();
  p.lines.clear();
  if (!p.build) random_lines(r, m, p.lidx, p.lines);
#endif
  const Result res = call(m, p);
  c.count("cells", static_cast<long>(m.n()));
  c.count(m.dim == 2 ? "dim2" : "dim3");
  c.count("kind_" + m.kind.substr(0, m.kind.find('+')));
  bool ok = check_partition(c, m, p, res, VF_PROP == 1 ? "" : "partition-");
  bool interesting = false;
  if (ok) {
    const auto g = groups(res.f2c);
    for (const auto &x : g) interesting = interesting || x.size() > 1;
    c.count("coarse_cells", static_cast<long>(g.size()));
  }
#if VF_PROP == 2
  if (ok) check_connected(c, m, p, res);
#elif VF_PROP == 3
  if (ok) check_cardinality(c, m, p, res);
#elif VF_PROP == 4
  if (ok) {
    Params q = p;
    q.corr = false;
    const Result r0 = call(m, q);
    if (check_partition(c, m, q, r0, "partition-")) {
      check_correction(c, m, p, r0, res);
      bool s = false;
      const auto an = aniso_flags(q, r0, r0.f2c.size());
      const auto g0 = groups(r0.f2c);
      for (size_t k = 0; k < g0.size(); ++k) s = s || (!an[k] && static_cast<int>(g0[k].size()) <= effective_sing(p));
      interesting = s;
    }
  }
#elif VF_PROP == 5
  if (ok) check_lines_found(c, m, p, res);
  interesting = !res.lines.empty();
#elif VF_PROP == 6
  if (ok && check_line_format(c, m, p, res)) {
    std::vector<std::vector<Ix>> fl;
    bool amb = false;
    if (p.build)
      fl = line_model(m, p, amb);
    else
      for (size_t l = 0; l + 1 < p.lidx.size(); ++l)
        fl.emplace_back(p.lines.begin() + p.lidx[l], p.lines.begin() + p.lidx[l + 1]);
    if (!p.build && (p.lidx.size() < 2 || p.lines.empty())) {
      c.count("no_lines_given");
    } else if (amb)
      c.count("ambiguous_rounding");
    else
      check_line_agglomeration(c, m, p, fl, res);
    interesting = !res.lines.empty();
  }
#endif
  if (interesting && m.n() > 1) {
    Hash h;
    h.add(mesh_hash(m)).add(p.hash());
    c.nontrivial(h.h);
    if (m.n() > 3 && m.n() < 16) c.sample(p.desc() + " | " + m.desc() + " adj=" + str(m.adj) + " -> " + res.desc());
  }
}

int main(int argc, char **argv) { return driver_main(argc, argv, 100 + VF_PROP, one); }
