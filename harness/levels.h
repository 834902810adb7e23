// The library's coarse graph as a mesh of the next level.
#pragma once
#include "oracles.h"

#include "CoMMA/Util.h"

namespace vf {

inline Mesh coarsen(const Mesh &m, const std::vector<Ix> &f2c) {
  Mesh k;
  k.kind = "coarse";
  k.dim = m.dim;
  comma::build_coarse_graph<Ix, double, int>(f2c, m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, m.nb, k.idx, k.adj, k.w, k.vol,
                                             k.ctr, k.prio, k.nb);
  return k;
}

}  // namespace vf
