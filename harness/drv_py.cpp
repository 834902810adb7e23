// P22: the Python module next to the C++ library, in an embedded interpreter.
#include <pybind11/embed.h>
#include <pybind11/stl.h>

#include "levels.h"
#include "src/CoMMA.cpp"

using vf::Ctx;
using vf::Hash;
using vf::Ix;
using vf::Mesh;
using vf::Params;
using vf::Result;
using vf::Rng;
using V = std::vector<Ix>;

// What the interpreter keeps until the end is not of interest
extern "C" int __lsan_is_turned_off() { return 1; }

static py::module_ *mod = nullptr;

static const std::vector<std::pair<const char *, std::vector<std::pair<const char *, int>>>> ENUMS{
  {"Neighbourhood", {{"EXTENDED", CoMMANeighbourhoodT::EXTENDED}, {"PURE_FRONT", CoMMANeighbourhoodT::PURE_FRONT}}},
  {"SeedsPool",
   {{"BOUNDARY", CoMMASeedsPoolT::BOUNDARY_PRIORITY},
    {"NEIGHBOURHOOD", CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY},
    {"BOUNDARY_POINT_INIT", CoMMASeedsPoolT::BOUNDARY_PRIORITY_ONE_POINT_INIT},
    {"NEIGHBOURHOOD_POINT_INIT", CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY_ONE_POINT_INIT}}},
  {"AR",
   {{"DIAMETER_OVER_RADIUS", CoMMAAspectRatioT::DIAMETER_OVER_RADIUS},
    {"DIAMETER_OVER_MIN_EDGE", CoMMAAspectRatioT::DIAMETER_OVER_MIN_EDGE},
    {"DIAMETER", CoMMAAspectRatioT::DIAMETER},
    {"ONE_OVER_MEASURE", CoMMAAspectRatioT::ONE_OVER_MEASURE},
    {"ONE_OVER_INTERNAL_WEIGHTS", CoMMAAspectRatioT::ONE_OVER_INTERNAL_WEIGHTS},
    {"PERIMETER_OVER_RADIUS", CoMMAAspectRatioT::PERIMETER_OVER_RADIUS},
    {"EXTERNAL_WEIGHTS", CoMMAAspectRatioT::EXTERNAL_WEIGHTS},
    {"MAX_BARY_DIST_OVER_RADIUS", CoMMAAspectRatioT::MAX_BARY_DIST_OVER_RADIUS},
    {"MAX_OVER_MIN_BARY_DIST", CoMMAAspectRatioT::MAX_OVER_MIN_BARY_DIST},
    {"ALGEBRAIC_PERIMETER_OVER_MEASURE", CoMMAAspectRatioT::ALGEBRAIC_PERIMETER_OVER_MEASURE}}},
  {"CellCoupling", {{"MAX_WEIGHT", CoMMACellCouplingT::MAX_WEIGHT}, {"MIN_DISTANCE", CoMMACellCouplingT::MIN_DISTANCE}}}};

static py::object enum_of(const char *type, int v) {
  for (const auto &[t, names] : ENUMS)
    if (std::string(t) == type)
      for (const auto &[name, val] : names)
        if (val == v) return mod->attr(type).attr(name);
  return py::int_(v);
}

struct Outcome {
  std::string error;
  Result res;
  std::string desc() const { return error.empty() ? res.desc() : "error: " + error; }
  bool operator==(const Outcome &o) const { return error == o.error && (!error.empty() || res == o.res); }
};

/** The C++ call without the last arguments */
static Outcome native(const Mesh &m, const Params &p, int dim, int omitted) {
  Outcome o;
  o.res.lidx = p.lidx;
  o.res.lines = p.lines;
  auto go = [&](auto... rest) {
    agglomerate_one_level<Ix, double, int>(m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, p.compliant, m.nb, p.build, p.aniso, p.odd,
                                           p.thr, static_cast<CoMMASeedsPoolT>(p.seed), o.res.f2c, o.res.lidx, o.res.lines,
                                           p.corr, dim, p.goal, p.min, p.max, rest...);
  };
  const auto ar = static_cast<CoMMAAspectRatioT>(p.ar);
  const auto cp = static_cast<CoMMACellCouplingT>(p.coupling);
  const auto nh = static_cast<CoMMANeighbourhoodT>(p.neigh);
  try {
    switch (omitted) {
      case 0:
        go(ar, p.sing, p.maxline, cp, p.force_dir, p.fc_iter, nh);
        break;
      case 1:
        go(ar, p.sing, p.maxline, cp, p.force_dir, p.fc_iter);
        break;
      case 2:
        go(ar, p.sing, p.maxline, cp, p.force_dir);
        break;
      case 3:
        go(ar, p.sing, p.maxline, cp);
        break;
      case 4:
        go(ar, p.sing, p.maxline);
        break;
      case 5:
        go(ar, p.sing);
        break;
      case 6:
        go(ar);
        break;
      default:
        go();
    }
  } catch (const std::exception &e) {
    o.error = e.what();
    if (o.error.empty()) o.error = "exception";
  }
  return o;
}

static py::object seq(Rng &r, const py::list &l) {
  if (r.chance(0.3)) return py::tuple(l);
  return l;
}

static void one(Rng &r, Ctx &c, uint64_t, long k) {
  if (k % 50 == 0) {
    for (const auto &[t, names] : ENUMS)
      for (const auto &[name, val] : names) {
        c.count("monitor_evaluations");
        if (!c.require(py::hasattr(*mod, t) && py::hasattr(mod->attr(t), name) && py::hasattr(*mod, name)
                         && py::cast<int>(py::int_(mod->attr(t).attr(name))) == val
                         && py::cast<int>(py::int_(mod->attr(name))) == val,
                       "enum", [&, t = t, name = name] { return std::string("enumeration value ") + t + "." + name; }))
          return;
      }
  }
  vf::GenOpt go;
  go.max_n = vf::big_or(r, 30);
  const Mesh m = vf::gen_mesh(r, go);
  if (m.n() == 0) return;
  Params p = vf::gen_params(r, m);
  int dim = m.dim;
  if ((!p.aniso || p.build) && r.chance(0.2)) {  // what no call reads
    if (r.chance(0.5))
      p.lidx = {0};
    else
      vf::random_lines(r, m, p.lidx, p.lines);
    c.count("unread_lines");
  }
  if (r.chance(0.3)) {  // settings that may be left out
    if (r.chance(0.7)) p.ar = 0;
    p.sing = 1;
    p.maxline.reset();
    if (r.chance(0.7)) p.coupling = 0;
    p.force_dir = true;
    p.fc_iter = 1;
    p.neigh = 0;
  }
  const bool spoil = r.chance(0.12);
  if (spoil) switch (r.in(0, 5)) {
      case 0:
        dim = 4;
        break;
      case 1:
        p.goal = p.min = 1;
        break;
      case 2:
        p.max = p.goal - 1;
        break;
      case 3:
        p.fc_iter = 7;
        break;
      case 4:
        p.sing = 0;
        break;
      default:
        p.seed = 5;
    }
  std::vector<std::pair<std::string, py::object>> args;
  auto add = [&](const char *n, const py::object &o) { args.emplace_back(n, o); };
  const bool as_enum = r.chance(0.5);
  auto en = [&](const char *t, int v) -> py::object { return as_enum ? enum_of(t, v) : py::int_(v); };
  const py::list lidx = py::cast(p.lidx), lines = py::cast(p.lines);
  add("adjMatrix_row_ptr", seq(r, py::cast(m.idx)));
  add("adjMatrix_col_ind", seq(r, py::cast(m.adj)));
  add("adjMatrix_areaValues", seq(r, py::cast(m.w)));
  add("volumes", seq(r, py::cast(m.vol)));
  add("centers", seq(r, py::cast(m.ctr)));
  add("priority_weights", seq(r, py::cast(m.prio)));
  add("anisotropicCompliantCells", seq(r, py::cast(p.compliant)));
  add("n_bnd_faces", seq(r, py::cast(m.nb)));
  add("build_anisotropic_lines", py::bool_(p.build));
  add("is_anisotropic", py::bool_(p.aniso));
  add("odd_line_length", py::bool_(p.odd));
  add("threshold_anisotropy", py::float_(p.thr));
  add("seed_ordering_type", en("SeedsPool", p.seed));
  add("agglomerationLines_Idx", lidx);
  add("agglomerationLines", lines);
  add("correction", py::bool_(p.corr));
  add("dimension", py::int_(dim));
  add("goal_card", py::int_(p.goal));
  add("min_card", py::int_(p.min));
  add("max_card", py::int_(p.max));
  const size_t required = args.size();
  add("aspect_ratio", en("AR", p.ar));
  add("singular_card_thresh", py::int_(p.sing));
  add("max_cells_in_line", p.maxline ? py::object(py::int_(*p.maxline)) : py::object(py::none()));
  add("aniso_cell_coupling", en("CellCoupling", p.coupling));
  add("force_line_direction", py::bool_(p.force_dir));
  add("fc_choice_iter", py::int_(p.fc_iter));
  add("type_of_isotropic_agglomeration", en("Neighbourhood", p.neigh));
  const int omitted = r.chance(0.4) ? static_cast<int>(r.in(1, 7)) : 0;
  args.resize(args.size() - omitted);
  // Some by position, the others by name in any order
  const size_t by_pos = r.chance(0.4) ? args.size() : r.chance(0.5) ? 0 : static_cast<size_t>(r.in(0, static_cast<long>(args.size())));
  py::list pos;
  for (size_t i = 0; i < by_pos; ++i) pos.append(args[i].second);
  std::vector<size_t> names;
  for (size_t i = by_pos; i < args.size(); ++i) names.push_back(i);
  r.shuffle(names);
  py::dict kw;
  for (size_t i : names) kw[py::str(args[i].first)] = args[i].second;
  Outcome got;
  try {
    const py::tuple t = mod->attr("agglomerate_one_level")(*pos, **kw);
    if (!c.require(py::len(t) == 3, "tuple", [&] { return std::string("not three results"); })) return;
    got.res.f2c = py::cast<V>(t[0]);
    got.res.lidx = py::cast<V>(t[1]);
    got.res.lines = py::cast<V>(t[2]);
  } catch (py::error_already_set &e) {
    got.error = py::cast<std::string>(py::str(e.value()));
    if (got.error.empty()) got.error = "exception";
    if (!e.matches(PyExc_ValueError)) got.error += " (not a ValueError)";
  }
  const Outcome want = native(m, p, dim, omitted);
  auto msg = [&](const std::string &w) {
    return w + " | left out " + std::to_string(omitted) + " by position " + std::to_string(by_pos) + " | " + p.desc() + " | " + m.full();
  };
  c.count("monitor_evaluations");
  c.count(want.error.empty() ? "agglomerations" : "errors");
  if (omitted) c.count("defaults_used", omitted);
  if (args.size() - by_pos > 0) c.count("by_name");
  if (by_pos > required) c.count("optional_by_position");
  if (!want.res.lines.empty()) c.count("with_lines");
  if (!c.require(got == want, want.error.empty() ? "agglomeration" : "error", [&] {
        return msg("Python gives " + got.desc() + " and C++ " + want.desc());
      }))
    return;
  c.require(py::cast<V>(lidx) == p.lidx && py::cast<V>(lines) == p.lines, "input", [&] { return msg("the lists given were changed"); });
  // The other functions
  const bool named = r.chance(0.5);
  using namespace py::literals;
  {
    V wall;
    for (size_t i = 0; i < m.n(); ++i)
      if (r.chance(0.15)) wall.push_back(i);
    std::vector<CoMMASignedIndexT> d;
    compute_neighbourhood_based_wall_distance<Ix, CoMMASignedIndexT>(m.idx, m.adj, wall, d);
    const auto f = mod->attr("compute_neighbourhood_based_wall_distance");
    const py::object o = named ? f("wall"_a = wall, "neighs"_a = m.adj, "neigh_idxs"_a = m.idx) : f(m.idx, m.adj, wall);
    c.count("monitor_evaluations");
    if (!c.require(py::cast<std::vector<CoMMASignedIndexT>>(o) == d, "distance", [&] { return msg("wall distance from " + vf::str(wall)); })) return;
  }
  {
    std::unordered_set<int> allowed;
    for (int i = 0; i < 6; ++i)
      if (r.chance(0.4)) allowed.insert(i);
    V f1;
    filter_cells_by_n_edges(m.idx, m.nb, allowed, f1);
    const auto f = mod->attr("filter_cells_by_n_edges");
    const py::object o = named ? f("allowed"_a = allowed, "indices"_a = m.idx, "n_bnd_face"_a = m.nb) : f(m.idx, m.nb, allowed);
    c.count("monitor_evaluations");
    if (!c.require(py::cast<V>(o) == f1, "filter", [&] { return msg("filtered cells"); })) return;
  }
  if (want.error.empty()) {
    const Mesh q = vf::coarsen(m, want.res.f2c);
    const auto f = mod->attr("build_coarse_graph");
    const py::tuple t =
      named ? f("f_n_bnd"_a = m.nb, "f2c"_a = want.res.f2c, "f_adj_idx"_a = m.idx, "f_adj"_a = m.adj, "f_weights"_a = m.w,
                "f_priority"_a = m.prio, "f_volumes"_a = m.vol, "f_centers"_a = m.ctr)
            : f(want.res.f2c, m.idx, m.adj, m.w, m.vol, m.ctr, m.prio, m.nb);
    using D = std::vector<double>;
    c.count("monitor_evaluations");
    c.require(py::len(t) == 7 && py::cast<V>(t[0]) == q.idx && py::cast<V>(t[1]) == q.adj && py::cast<D>(t[2]) == q.w
                && py::cast<D>(t[3]) == q.vol && py::cast<std::vector<D>>(t[4]) == q.ctr && py::cast<D>(t[5]) == q.prio
                && py::cast<std::vector<int>>(t[6]) == q.nb,
              "coarse-graph", [&] { return msg("coarse graph"); });
  }
  Hash h;
  h.add(vf::mesh_hash(m)).add(p.hash()).add(omitted);
  c.nontrivial(h.h);
  if (m.n() > 3 && m.n() < 12) c.sample("left out " + std::to_string(omitted) + " | " + p.desc() + " | " + m.desc() + " -> " + got.desc());
}

int main(int argc, char **argv) {
  PyImport_AppendInittab("CoMMA", PyInit_CoMMA);
  py::initialize_interpreter(false);
  py::module_ m = py::module_::import("CoMMA");
  mod = &m;
  const int rc = vf::driver_main(argc, argv, 122, one);
  std::fflush(nullptr);
  _exit(rc);
}
