// P34: another file of the program, with all the installed headers
#include "vf_all_headers.h"

size_t other_file(const std::vector<comma::CoMMAIndexT> &f2c) {
  using I = comma::CoMMAIndexT;
  using R = comma::CoMMAWeightT;
  using N = comma::CoMMAIntT;
  if (f2c.size() != 4) return f2c.size();
  // A row of four cells
  std::vector<I> res, lidx, lines;
  comma::agglomerate_one_level<I, R, N>(
    {0, 1, 3, 5, 6}, {1, 0, 2, 1, 3, 2}, {1, 1, 1, 1, 1, 1}, {1, 1, 1, 1}, {{0, 0}, {1, 0}, {2, 0}, {3, 0}}, {0, 1, 2, 3}, {},
    {1, 0, 0, 1}, false, false, false, 4, comma::CoMMASeedsPoolT::BOUNDARY_PRIORITY, res, lidx, lines, true, 2, 2, 2, 2);
  return res.size();
}
