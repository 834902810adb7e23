// P04 at the level of the coarse-cell container: any division of a mesh into connected
// coarse cells, in any order, is corrected. Reaches rankings which the growth of coarse
// cells of one call rarely produces. Only what the project's own tests name is used.
#include "oracles.h"
using namespace vf;
using namespace comma;
using DualG = Dual_Graph<Ix, double, int>;
using Cont = Coarse_Cell_Container<Ix, double, int>;

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 40);
  const Mesh m = gen_mesh(r, go);
  if (m.n() < 2) return;
  const std::vector<Ix> none;
  auto g = std::make_shared<DualG>(m.n(), m.idx, m.adj, m.w, m.vol, m.ctr, m.nb, m.dim, none);
  Params p;
  p.corr = true;
  p.sing = r.chance(0.5) ? 1 : static_cast<int>(r.in(2, 4));
  p.min = p.goal = p.max = p.sing + static_cast<int>(r.in(1, 4));
  p.aniso = r.chance(0.3);
  Cont k(g, p.sing);
  Result r0, r1;
  r0.f2c.assign(m.n(), 0);
  std::vector<char> taken(m.n(), 0);
  std::vector<Ix> order(m.n());
  std::iota(order.begin(), order.end(), 0);
  r.shuffle(order);
  const double lone = r.u() * 0.6;
  const long top = r.in(2, 9);
  bool iso = !p.aniso;
  Ix id = 0;
  long small = 0;
  for (Ix x : order) {
    if (taken[x]) continue;
    std::vector<Ix> grp{x}, front;
    std::set<Ix> seen{x};
    const long want = r.chance(lone) ? r.in(1, p.sing) : r.in(1, top);
    auto around = [&](Ix y) {
      for (Ix e = m.idx[y]; e < m.idx[y + 1]; ++e)
        if (!taken[m.adj[e]] && seen.insert(m.adj[e]).second) front.push_back(m.adj[e]);
    };
    around(x);
    while (!front.empty() && static_cast<long>(grp.size()) < want) {
      const size_t q = static_cast<size_t>(r.in(0, static_cast<long>(front.size()) - 1));
      grp.push_back(front[q]);
      front.erase(front.begin() + static_cast<long>(q));
      around(grp.back());
    }
    const bool an = !iso && grp.size() > 1 && r.chance(0.7);
    iso = iso || !an;
    k.create_cc(std::unordered_set<Ix>(grp.begin(), grp.end()), static_cast<int>(min_internal_degree(m, grp)), an);
    for (Ix f : grp) {
      taken[f] = 1;
      r0.f2c[f] = id;
    }
    if (an) r0.lines.push_back(id);
    small += !an && static_cast<int>(grp.size()) <= p.sing;
    ++id;
  }
  if (r0.lines.empty())
    p.aniso = false;
  else
    r0.lidx = {0, r0.lines.size()};
  k.correct(static_cast<int>(r.in(2, 8)));
  r1 = r0;
  for (size_t i = 0; i < m.n(); ++i) {
    if (!c.require(k._fc_2_cc[i].has_value() && *k._fc_2_cc[i] < id, "direct-number",
                   [&] { return "coarse cell of " + std::to_string(i) + " after the correction of " + r0.desc() + " | " + m.full(); }))
      return;
    r1.f2c[i] = *k._fc_2_cc[i];
  }
  std::vector<char> used(id, 0);
  Ix last = 0;
  for (Ix x : r1.f2c) {
    used[x] = 1;
    last = std::max(last, x);
  }
  for (Ix x = 0; x <= last; ++x)
    if (!c.require(used[x], "direct-gap", [&] { return "number " + std::to_string(x) + " unused after the correction of " + r0.desc() + " | " + m.full(); }))
      return;
  c.count("direct_corrections");
  check_correction(c, m, p, r0, r1);
  if (small) {
    Hash h;
    h.add(mesh_hash(m)).add(p.sing).addv(r0.f2c);
    c.nontrivial(h.h);
    if (m.n() < 12) c.sample("created " + r0.desc() + " corrected " + r1.desc() + " on " + m.desc());
  }
}

int main(int argc, char **argv) { return driver_main(argc, argv, 134, one); }
