// P09: malformed arguments are rejected, all the others accepted.
#include "oracles.h"
using namespace vf;
using namespace comma;

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 40);
  Mesh m = gen_mesh(r, go);
  if (m.n() == 0) return;
  Params p = gen_params(r, m);
  int dim = m.dim;
  std::string bad;
  auto given = [&] {
    p.aniso = true;
    p.build = false;
    do random_lines(r, m, p.lidx, p.lines);
    while (p.lidx.size() < 2 || p.lines.empty());
  };
  const bool spoil = r.chance(0.75);
  if (spoil) switch (r.in(0, 15)) {
      case 0:
        bad = "dimension";
        dim = r.pick(std::vector<int>{1, 0, 4, -2, 5, 100});
        break;
      case 1:
        bad = "goal-below-two";
        p.min = p.goal = static_cast<int>(r.in(-3, 1));
        break;
      case 2:
        bad = "min-below-two";
        p.min = r.pick(std::vector<int>{1, 0, -1, -1000000});
        break;
      case 3:
        bad = "max-below-two";
        p.min = p.goal = p.max = static_cast<int>(r.in(-2, 1));
        break;
      case 4:
        bad = "min-above-goal";
        p.min = p.goal + static_cast<int>(r.in(1, 3));
        if (r.chance(0.5)) p.max = std::max(p.max, p.min);
        break;
      case 5:
        bad = "goal-above-max";
        p.goal = p.max + static_cast<int>(r.in(1, 3));
        break;
      case 6:
        bad = "look-ahead-low";
        p.fc_iter = r.pick(std::vector<int>{0, -1, -100});
        break;
      case 7:
        bad = "look-ahead-high";
        p.fc_iter = r.pick(std::vector<int>{5, 6, 1000});
        break;
      case 8:
        bad = "no-offsets";
        m.idx.clear();
        break;
      case 9:
        bad = "last-offset";
        if (r.chance(0.5))
          m.idx.back() += static_cast<Ix>(r.in(1, 3));
        else if (m.idx.back() > 0)
          m.idx.back() -= 1;
        else
          m.idx.back() += 1;
        break;
      case 10:
        bad = "connectivity-size";
        if (m.adj.empty() || r.chance(0.5))
          m.adj.push_back(0);
        else
          m.adj.pop_back();
        break;
      case 11:
        bad = "weights-size";
        if (m.w.empty() || r.chance(0.5))
          m.w.push_back(1.);
        else
          m.w.pop_back();
        break;
      case 12:
        bad = "lines-size";
        given();
        if (r.chance(0.5))
          p.lidx.back() += static_cast<Ix>(r.in(1, 3));
        else
          p.lines.push_back(0);
        break;
      case 13:
        bad = "singular-threshold";
        p.sing = r.pick(std::vector<int>{0, -1, -50});
        break;
      case 14:
        bad = "seed-ordering";
        p.seed = r.pick(std::vector<int>{2, 3, 9, 12, 100, -1});
        break;
      default:
        bad = "shape-criterion";
        p.ar = r.pick(std::vector<int>{10, 11, 50, -1});
        break;
    }
  else {  // values at the ends of what is accepted
    if (r.chance(0.3)) p.min = p.goal = p.max = 2;
    if (r.chance(0.2)) p.max = 1000000;
    if (r.chance(0.2)) p.sing = r.pick(std::vector<int>{1, p.min, 100000});
    if (r.chance(0.2) && m.n() < 30 && p.max < 10) p.fc_iter = 4;
    if (p.aniso && r.chance(0.2)) p.thr = r.pick(std::vector<double>{0.5, 1., -7., 1e9});
    if (r.chance(0.1)) {  // lines that are not used are not looked at
      p.aniso = false;
      p.lidx = {0, 7};
      p.lines = {1};
    }
  }
  // Outputs that must survive a rejected call
  std::vector<Ix> f2c(static_cast<size_t>(r.in(0, 9)), 4242), before = f2c, lidx, lines;
  if ((p.aniso && !p.build) || !p.aniso) lidx = p.lidx, lines = p.lines;
  std::string what = "none";
  const bool objects = r.chance(0.35);
  try {
    if (objects) {
      GraphArgs<Ix, double, int> ga(m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, m.nb, dim);
      AgglomerationArgs<Ix, double, int> aa(p.goal, p.min, p.max, p.corr, static_cast<CoMMASeedsPoolT>(p.seed),
                                            static_cast<CoMMAAspectRatioT>(p.ar), p.sing, p.fc_iter,
                                            static_cast<CoMMANeighbourhoodT>(p.neigh));
      AnisotropicArgs<Ix, double, int> na(p.aniso, p.compliant, p.build, p.odd, p.thr, p.maxline,
                                          static_cast<CoMMACellCouplingT>(p.coupling), p.force_dir);
      agglomerate_one_level(ga, aa, na, f2c, lidx, lines);
    } else
      agglomerate_one_level<Ix, double, int>(
        m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, p.compliant, m.nb, p.build, p.aniso, p.odd, p.thr,
        static_cast<CoMMASeedsPoolT>(p.seed), f2c, lidx, lines, p.corr, dim, p.goal, p.min, p.max,
        static_cast<CoMMAAspectRatioT>(p.ar), p.sing, p.maxline, static_cast<CoMMACellCouplingT>(p.coupling), p.force_dir,
        p.fc_iter, static_cast<CoMMANeighbourhoodT>(p.neigh));
  } catch (const std::invalid_argument &e) {
    what = "invalid_argument";
  } catch (const std::exception &e) {
    what = std::string("other: ") + e.what();
  }
  auto msg = [&](const std::string &w) { return w + " | dim=" + std::to_string(dim) + " " + p.desc() + " | " + m.full(); };
  if (spoil) {
    c.count("bad_" + bad);
    if (!c.require(what == "invalid_argument", "accepted-" + bad, [&] { return msg("malformed " + bad + ", outcome: " + what); })) return;
    if (!c.require(f2c == before, "output-" + bad, [&] { return msg("the output was changed by a rejected call, " + bad); })) return;
  } else {
    c.count("good");
    if (!c.require(what == "none", "rejected", [&] { return msg("valid call rejected: " + what); })) return;
    if (!c.require(f2c.size() == m.n(), "no-result", [&] { return msg("valid call without result"); })) return;
  }
  Hash h;
  h.add(mesh_hash(m)).add(p.hash()).add(dim);
  c.nontrivial(h.h);
  if (m.n() < 8) c.sample((spoil ? bad : "valid") + " -> " + what + " | dim=" + std::to_string(dim) + " " + p.desc() + " | " + m.desc());
}

int main(int argc, char **argv) { return driver_main(argc, argv, 109, one); }
