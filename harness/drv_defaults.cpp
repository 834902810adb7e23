// P31: leaving options out is the same as giving their documented default values.
#include "oracles.h"
using namespace vf;
using namespace comma;

/** The long form with the first k optional arguments */
static Result long_form(const Mesh &m, const Params &p, int k) {
  Result res;
  res.lidx = p.lidx;
  res.lines = p.lines;
  const auto so = static_cast<CoMMASeedsPoolT>(p.seed);
  const auto ar = static_cast<CoMMAAspectRatioT>(p.ar);
  const auto cp = static_cast<CoMMACellCouplingT>(p.coupling);
  const auto ne = static_cast<CoMMANeighbourhoodT>(p.neigh);
  auto f = [&](auto... opt) {
    agglomerate_one_level<Ix, double, int>(m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, p.compliant, m.nb, p.build, p.aniso, p.odd,
                                           p.thr, so, res.f2c, res.lidx, res.lines, p.corr, m.dim, p.goal, p.min, p.max, opt...);
  };
  switch (k) {
    case 0: f(); break;
    case 1: f(ar); break;
    case 2: f(ar, p.sing); break;
    case 3: f(ar, p.sing, p.maxline); break;
    case 4: f(ar, p.sing, p.maxline, cp); break;
    case 5: f(ar, p.sing, p.maxline, cp, p.force_dir); break;
    case 6: f(ar, p.sing, p.maxline, cp, p.force_dir, p.fc_iter); break;
    default: f(ar, p.sing, p.maxline, cp, p.force_dir, p.fc_iter, ne);
  }
  return res;
}

using Agg = AgglomerationArgs<Ix, double, int>;
using Ani = AnisotropicArgs<Ix, double, int>;

static Agg agg_args(const Params &p, int k) {
  const auto so = static_cast<CoMMASeedsPoolT>(p.seed);
  const auto ar = static_cast<CoMMAAspectRatioT>(p.ar);
  const auto ne = static_cast<CoMMANeighbourhoodT>(p.neigh);
  switch (k) {
    case 0: return Agg(p.goal, p.min, p.max, p.corr, so);
    case 1: return Agg(p.goal, p.min, p.max, p.corr, so, ar);
    case 2: return Agg(p.goal, p.min, p.max, p.corr, so, ar, p.sing);
    case 3: return Agg(p.goal, p.min, p.max, p.corr, so, ar, p.sing, p.fc_iter);
    default: return Agg(p.goal, p.min, p.max, p.corr, so, ar, p.sing, p.fc_iter, ne);
  }
}

static Ani ani_args(const Params &p, int k) {
  const auto cp = static_cast<CoMMACellCouplingT>(p.coupling);
  const auto &v = p.compliant;
  switch (k) {
    case 0: return Ani(p.aniso, v);
    case 1: return Ani(p.aniso, v, p.build);
    case 2: return Ani(p.aniso, v, p.build, p.odd);
    case 3: return Ani(p.aniso, v, p.build, p.odd, p.thr);
    case 4: return Ani(p.aniso, v, p.build, p.odd, p.thr, p.maxline);
    case 5: return Ani(p.aniso, v, p.build, p.odd, p.thr, p.maxline, cp);
    default: return Ani(p.aniso, v, p.build, p.odd, p.thr, p.maxline, cp, p.force_dir);
  }
}

static Result short_form(const Mesh &m, const Params &p, int ka, int kn) {
  Result res;
  res.lidx = p.lidx;
  res.lines = p.lines;
  const GraphArgs<Ix, double, int> ga(m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, m.nb, m.dim);
  agglomerate_one_level<Ix, double, int>(ga, agg_args(p, ka), ani_args(p, kn), res.f2c, res.lidx, res.lines);
  return res;
}

// Documented defaults, by position
static void iso_default(Params &p, int i) {
  if (i == 0) p.ar = 0;
  if (i == 1) p.sing = 1;
  if (i == 2) p.fc_iter = 1;
  if (i == 3) p.neigh = 0;
}
static void ani_default(Params &p, int i) {
  if (i == 0) p.build = true;
  if (i == 1) p.odd = true;
  if (i == 2) p.thr = 4.;
  if (i == 3) p.maxline.reset();
  if (i == 4) p.coupling = 0;
  if (i == 5) p.force_dir = true;
}
static void long_default(Params &p, int i) {
  static const int which[] = {0, 1, 13, 14, 15, 2, 3};
  which[i] < 10 ? iso_default(p, which[i]) : ani_default(p, which[i] - 10);
}

static void one(Rng &r, Ctx &c, uint64_t, long) {
  GenOpt go;
  go.max_n = big_or(r, 60);
  go.aniso = r.chance(0.7);
  const Mesh m = gen_mesh(r, go);
  if (m.n() < 2) return;
  ParamOpt po;
  po.max_iter = 2;
  po.aniso = r.chance(0.7);
  Params p = gen_params(r, m, po);
  if (r.chance(0.5)) {
    p.compliant.resize(m.n());
    std::iota(p.compliant.begin(), p.compliant.end(), 0);
  }
  const bool lng = r.chance(0.4);
  int k = 7, ka = 4, kn = 6;
  Params q = p;  // with the defaults written out
  if (lng) {
    k = r.chance(0.4) ? static_cast<int>(r.in(0, 1)) : static_cast<int>(r.in(0, 6));
    for (int i = k; i < 7; ++i) long_default(q, i);
  } else {
    ka = static_cast<int>(r.in(0, 4));
    kn = static_cast<int>(r.in(0, 6));
    for (int i = ka; i < 4; ++i) iso_default(q, i);
    for (int i = kn; i < 6; ++i) ani_default(q, i);
  }
  if (q.aniso && q.build) {
    q.lidx.clear();
    q.lines.clear();
  }
  p.lidx = q.lidx;
  p.lines = q.lines;
  const Result want = call(m, q);
  const Result got = lng ? long_form(m, p, k) : short_form(m, p, ka, kn);
  if (!c.require(got == want, lng ? "long-form" : "short-form", [&] {
        return (lng ? std::to_string(k) + " optional arguments of the long form given"
                    : std::to_string(ka) + " isotropic and " + std::to_string(kn) + " anisotropic options given")
          + ": " + got.desc() + ", with the documented defaults " + want.desc() + " | " + q.desc() + " | " + m.full();
      }))
    return;
  // Which of the defaults left out matters here: another value gives another result
  static const char *const iso_name[] = {"aspect_ratio", "singular", "iterations", "neighbourhood"};
  static const char *const ani_name[] = {"build", "odd", "threshold", "max_cells", "coupling", "direction"};
  const std::string form = lng ? "long_" : "short_";
  auto iso_matters = [&](int i) {
    Params t = q;
    if (i == 0) t.ar = static_cast<int>(r.in(1, 9));
    if (i == 1) t.sing = static_cast<int>(r.in(2, 4));
    if (i == 2) {
      if (m.n() > 900 || q.max > 40) return;  // too long
      t.fc_iter = 2;
    }
    if (i == 3) t.neigh = 1;
    if (call(m, t) != want) c.count("decided_" + form + iso_name[i]);
  };
  auto ani_matters = [&](int i) {
    if (!q.aniso) return;
    Params t = q;
    if (i == 0) {
      t.build = false;
      t.lidx = {0, 2};
      t.lines = {0, m.n() - 1};
    }
    if (i == 1) t.odd = false;
    if (i == 2) t.thr = r.pick(std::vector<double>{2., 3., 5., 8., -1.});
    if (i == 3) t.maxline = static_cast<Ix>(r.in(2, 5));
    if (i == 4) t.coupling = 1;
    if (i == 5) t.force_dir = false;
    if (call(m, t) != want) c.count("decided_" + form + ani_name[i]);
  };
  if (lng) {
    static const int which[] = {0, 1, 13, 14, 15, 2, 3};
    const int w = which[k < 2 && r.chance(0.5) ? r.in(k, 1) : r.in(k, 6)];
    w < 10 ? iso_matters(w) : ani_matters(w - 10);
  } else {
    if (ka < 4) iso_matters(static_cast<int>(r.in(ka, 3)));
    if (kn < 6) ani_matters(static_cast<int>(r.in(kn, 5)));
  }
  Hash h;
  h.add(mesh_hash(m)).add(p.hash()).add(lng).add(k).add(ka).add(kn);
  c.nontrivial(h.h);
  if (m.n() < 12) c.sample(std::to_string(k) + "/" + std::to_string(ka) + "/" + std::to_string(kn) + " options given, " + q.desc() + " | " + m.desc());
}

int main(int argc, char **argv) { return driver_main(argc, argv, 131, one); }
