// One call of a public function with inputs prepared beforehand: only the call itself is between
// the construction and the destruction of the Armed object, which the including file defines.
#pragma once
#include "oracles.h"

namespace vf {
using namespace comma;

/** What a call gives, all kinds together */
struct Out {
  std::vector<Ix> a, b, d;
  std::vector<double> w, vol, prio;
  std::vector<std::vector<double>> ctr;
  std::vector<int> nb;
  bool operator==(const Out &o) const {
    return a == o.a && b == o.b && d == o.d && w == o.w && vol == o.vol && prio == o.prio && ctr == o.ctr && nb == o.nb;
  }
};

inline const char *const KINDS[] = {"long_form", "short_form", "coarse_graph", "wall_distance", "filter"};

struct Task {
  int kind = 0;
  Mesh m;
  Params p;
  std::vector<Ix> f2c, wall;
  std::unordered_set<int> faces;

  void run(Out &o) const {
    const auto neigh = static_cast<CoMMANeighbourhoodT>(p.neigh);
    const auto ar = static_cast<CoMMAAspectRatioT>(p.ar);
    const auto seeds = static_cast<CoMMASeedsPoolT>(p.seed);
    const auto coupling = static_cast<CoMMACellCouplingT>(p.coupling);
    switch (kind) {
      case 0: {
        if (p.aniso && !p.build) o.b = p.lidx, o.d = p.lines;
        Armed on;
        agglomerate_one_level<Ix, double, int>(
          m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, p.compliant, m.nb, p.build, p.aniso, p.odd, p.thr, seeds, o.a, o.b, o.d,
          p.corr, m.dim, p.goal, p.min, p.max, ar, p.sing, p.maxline, coupling, p.force_dir, p.fc_iter, neigh);
        break;
      }
      case 1: {
        if (p.aniso && !p.build) o.b = p.lidx, o.d = p.lines;
        Armed on;
        const GraphArgs<Ix, double, int> g(m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, m.nb, m.dim);
        const AgglomerationArgs<Ix, double, int> a(p.goal, p.min, p.max, p.corr, seeds, ar, p.sing, p.fc_iter, neigh);
        const AnisotropicArgs<Ix, double, int> n(p.aniso, p.compliant, p.build, p.odd, p.thr, p.maxline, coupling, p.force_dir);
        agglomerate_one_level<Ix, double, int>(g, a, n, o.a, o.b, o.d);
        break;
      }
      case 2: {
        Armed on;
        build_coarse_graph<Ix, double, int>(f2c, m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, m.nb, o.a, o.b, o.w, o.vol, o.ctr,
                                            o.prio, o.nb);
        break;
      }
      case 3: {
        Armed on;
        compute_neighbourhood_based_wall_distance<Ix, int>(m.idx, m.adj, wall, o.nb);
        break;
      }
      default: {
        Armed on;
        filter_cells_by_n_edges<Ix, int>(m.idx, m.nb, faces, o.a);
      }
    }
  }
};

}  // namespace vf
