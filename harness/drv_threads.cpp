// P11: concurrent agglomerations, run under the thread sanitizer.
#include <atomic>
#include <thread>

#include "levels.h"
using namespace vf;
using namespace comma;

struct Work {
  const Mesh *m;
  Params p;
  Result want, got;
  std::vector<Ix> wall;
  Mesh cw, cg;
  std::vector<long> dw, dg;
};

static void work(Work &w, bool alone) {
  Result &o = alone ? w.want : w.got;
  o = {};
  const Mesh &m = *w.m;
  const Params &p = w.p;
  if (p.aniso && !p.build) o.lidx = p.lidx, o.lines = p.lines;
  // The shared arrays themselves, not copies
  agglomerate_one_level<Ix, double, int>(
    m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, p.compliant, m.nb, p.build, p.aniso, p.odd, p.thr,
    static_cast<CoMMASeedsPoolT>(p.seed), o.f2c, o.lidx, o.lines, p.corr, m.dim, p.goal, p.min, p.max,
    static_cast<CoMMAAspectRatioT>(p.ar), p.sing, p.maxline, static_cast<CoMMACellCouplingT>(p.coupling), p.force_dir,
    p.fc_iter, static_cast<CoMMANeighbourhoodT>(p.neigh));
  (alone ? w.cw : w.cg) = coarsen(m, o.f2c);
  auto &d = alone ? w.dw : w.dg;
  compute_neighbourhood_based_wall_distance<Ix, long>(m.idx, m.adj, w.wall, d);
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  const long nt = r.in(2, 6), nm = r.in(1, 2), per = r.in(1, 4);
  std::vector<Mesh> ms;
  for (long i = 0; i < nm; ++i) {
    GenOpt go;
    go.max_n = big_or(r, 30);
    go.aniso = r.chance(0.4);
    ms.push_back(gen_mesh(r, go));
  }
  std::vector<std::vector<Work>> ws(nt);
  ParamOpt po;
  po.max_iter = 2;
  const bool same = r.chance(0.3);
  Hash h;
  Params common;
  const Mesh *cm = &ms[0];
  common = gen_params(r, *cm, po);
  for (auto &v : ws)
    for (long k = 0; k < per; ++k) {
      Work w;
      w.m = same ? cm : &ms[r.in(0, nm - 1)];
      w.p = same ? common : gen_params(r, *w.m, po);
      for (size_t i = 0; i < w.m->n(); ++i)
        if (r.chance(0.2)) w.wall.push_back(i);
      h.add(mesh_hash(*w.m)).add(w.p.hash());
      v.push_back(w);
    }
  const bool before = r.chance(0.5);
  auto alone = [&] {
    for (auto &v : ws)
      for (auto &w : v) work(w, true);
  };
  if (before) alone();
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (auto &v : ws)
    ts.emplace_back([&] {
      ready++;
      while (ready < nt) std::this_thread::yield();
      for (auto &w : v) work(w, false);
    });
  for (auto &t : ts) t.join();
  if (!before) alone();
  for (auto &v : ws)
    for (auto &w : v) {
      c.count("concurrent_calls");
      if (!c.require(w.got == w.want, "interference", [&] {
            return "result of a thread differs from the one obtained alone: " + ctx_msg(*w.m, w.p, w.got, "") + " alone " + w.want.desc();
          }))
        return;
      if (!c.require(w.cg.idx == w.cw.idx && w.cg.adj == w.cw.adj && w.cg.w == w.cw.w && w.cg.vol == w.cw.vol && w.dg == w.dw,
                     "interference-utilities", [&] { return "coarse graph or distances of a thread differ: " + ctx_msg(*w.m, w.p, w.got, ""); }))
        return;
    }
  c.count("threads", nt);
  c.count("rounds");
  if (same) c.count("same_arguments");
  c.nontrivial(h.h);
  c.sample(std::to_string(nt) + " threads, " + std::to_string(per) + " calls each, meshes " + ms[0].desc());
}

int main(int argc, char **argv) { return driver_main(argc, argv, 111, one); }
