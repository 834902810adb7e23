"""What each check compiles, how many cases it runs and what it must have observed."""
import sysconfig


def huge(n, cases):
    """Arguments with which n of the cases use a very large mesh"""
    return ["--huge", str(cases // n)]


def agg(n, cases, **kw):
    return dict(src="drv_agg.cpp", defs=["VF_PROP=%d" % n], cases=cases, **kw)


def util(n, cases, **kw):
    return dict(src="drv_util.cpp", defs=["VF_PROP=%d" % n], cases=cases, **kw)


def graph(n, cases, **kw):
    return dict(src="drv_graph.cpp", defs=["VF_PROP=%d" % n], cases=cases, **kw)


def grow(n, cases, **kw):
    return dict(src="drv_grow.cpp", defs=["VF_PROP=%d" % n], cases=cases, **kw)


def seq(n, cases, **kw):
    return dict(src="drv_seq.cpp", defs=["VF_PROP=%d" % n], cases=cases, **kw)


def multi(n, cases, **kw):
    return dict(src="drv_multi.cpp", defs=["VF_PROP=%d" % n], cases=cases, **kw)


def safe(mode, tag, cases, big=60, **kw):
    return dict(src="drv_safe.cpp", defs=["VF_TAG=%d" % tag, "VF_BIG=%d" % big], mode=mode, cases=cases, **kw)


GRAPH = ("model-based runtime monitors: random operation histories on the real classes compared with a simple model after "
         "each step, under ASan+UBSan and checked libstdc++")

def installed(label, types, cases, headers=False):
    """A program built with the installed headers, in two files"""
    ints, index, real = types or ("int", "unsigned long", "double")
    j = dict(src="drv_installed.cpp", cases=cases, label=label, name="P34_" + label, group="cxx",
             defs=["VF_INT=" + ints, "VF_INDEX=" + index, "VF_REAL=" + real])
    if types:
        j.update(config=types, headers=headers, more=["drv_installed2.cpp"], defs=j["defs"] + ["VF_TWO=1"])
    return j


def module(label, types, cases):
    return dict(src="/REPO/src/CoMMA.cpp", mode="module", out="CoMMA.so", config=types, cases=cases, label=label,
                name="P34_" + label, group="python", flags=["-I" + sysconfig.get_paths()["include"]],
                run=["python3", "/HARN/drv_pytypes.py", "/BIN"])


PROPS = {
    "P01": dict(
        jobs=[agg(1, 12000, args=huge(8, 12000))],
        need={"cases": 6000, "very_large_meshes": 5, "cases_with_lines": 1000, "cells": 100000},
        rule="distinct (mesh, parameters) with at least two cells for which some coarse cell groups several fine cells"),
    "P02": dict(
        jobs=[agg(2, 12000, args=huge(8, 12000))],
        need={"cases": 6000, "very_large_meshes": 5, "coarse_cells_traversed": 30000},
        rule="distinct (mesh, parameters) whose coarse cells were traversed, some with several fine cells"),
    "P03": dict(
        jobs=[agg(3, 10000, args=huge(8, 10000))],
        need={"cases": 5000, "very_large_meshes": 5, "undersized_cells": 5000, "aniso_cells": 5000, "full_cells": 5000},
        rule="distinct (mesh, parameters), correction off, with some coarse cell of several fine cells"),
    "P04": dict(
        jobs=[agg(4, 10000, args=huge(4, 10000)), dict(src="drv_corr.cpp", defs=[], cases=40000)],
        need={"cases": 25000, "very_large_meshes": 3, "ranking_model_with_singular": 12000, "ranking_model_with_threshold": 3000,
              "whole_merges_decided_by_size": 1200, "singular_cells": 100000},
        rule="distinct (mesh, parameters) whose uncorrected result holds a singular isotropic coarse cell"),
    "P31": dict(
        jobs=[dict(src="drv_defaults.cpp", defs=[], cases=30000)],
        need=dict({"cases": 15000},
                  **{"decided_%s_%s" % (f, o): 15 for f in ("long", "short") for o in
                     ("aspect_ratio", "singular", "iterations", "neighbourhood", "max_cells", "coupling", "direction")},
                  **{"decided_short_%s" % o: 15 for o in ("build", "odd", "threshold")}),
        rule="distinct (mesh, parameters, call form, number of options left out)"),
    "P32": dict(
        jobs=[dict(src="drv_helpers.cpp", defs=[], cases=20000)],
        beyond_reduced=("vectors", "directions", "deviating", "parallel", "longer_second_point"),
        need={"cases": 10000, "powers": 40000, "vectors": 20000, "directions": 15000, "deviating": 8000, "parallel": 5000,
              "longer_second_point": 5000, "pairs_compared": 500000, "ties": 50000},
        technique=GRAPH,
        rule="generated sets of numbers, points and pairs"),
    "P06": dict(
        jobs=[agg(6, 10000, args=huge(6, 10000))],
        need={"cases": 5000, "very_large_meshes": 4, "pairs": 12000, "triples": 1200, "lines_limited": 1200},
        rule="distinct (mesh, parameters) with at least one exported line"),
    "P18": dict(
        jobs=[util(18, 16000, args=huge(12, 16000))],
        need={"cases": 8000, "very_large_meshes": 8, "coarse_edges": 100000, "from_agglomeration": 3000, "other_types": 1500, "other_types_large": 1},
        rule="distinct (mesh, fine-to-coarse map) with at least two coarse cells"),
    "P19": dict(
        jobs=[util(19, 16000, args=huge(24, 16000))],
        need={"cases": 8000, "very_large_meshes": 16, "far_cells": 50000, "unreached_cells": 5000, "long_chain": 500, "empty_wall": 300},
        rule="distinct (mesh, wall) with at least one cell at a positive distance"),
    "P20": dict(
        jobs=[util(20, 16000, args=huge(24, 16000))],
        need={"cases": 8000, "very_large_meshes": 16, "with_non_positive_request": 5000, "many_faces": 300},
        rule="distinct (mesh, requested numbers) that select some but not all of the cells"),
    "P24": dict(
        jobs=[graph(24, 10000, args=huge(20, 10000))],
        need={"cases": 5000, "very_large_meshes": 14, "not_connected": 500, "cells_beyond_first_order": 20000},
        technique=GRAPH,
        rule="distinct (mesh, set of cells, state, order) with a non-empty neighbourhood"),
    "P33": dict(
        jobs=[graph(33, 12000, args=huge(8, 12000))],
        need={"cases": 6000, "very_large_meshes": 5, "tagged": 50000, "below_threshold": 50000, "kept_out_by_shape": 20000,
              "exactly_at_threshold": 1000},
        technique=GRAPH,
        rule="distinct (mesh, compliant cells, threshold, coupling, preservation) for which some cell is tagged"),
    "P25": dict(
        jobs=[graph(25, 20000)],
        beyond_reduced=("coarse_cell_edits",),
        need={"cases": 8000, "insertions": 10000, "removals": 8000, "not_connected": 2000, "coarse_cell_edits": 2000},
        technique=GRAPH,
        rule="distinct (mesh, edit history) of at least two edits, compared with the induced sub-graph after each edit"),
    "P26": dict(
        jobs=[graph(26, 16000)],
        beyond_reduced=("delayed",),
        need={"cases": 8000, "anisotropic": 5000, "delayed": 5000, "corrections_with_merge": 2000},
        technique=GRAPH,
        rule="distinct (mesh, creation history)"),
    "P12": dict(
        jobs=[seq(12, 16000)],
        need={"cases": 8000, "seeds_replayed": 20000, "direct_seeds": 20000, "next_to_built": 5000, "boundary_seeds": 10000,
              "started_from_neighbours": 500},
        technique="runtime monitors: coarse cells of the real code replayed in creation order against a model of the documented "
                  "queues, and the real pools driven by random histories next to the same model, under ASan+UBSan",
        rule="distinct (mesh, parameters) or pool histories with several seeds judged"),
    "P13": dict(
        jobs=[seq(13, 12000)],
        need={"cases": 6000, "growth_judged": 20000},
        technique="runtime monitor: each coarse cell of the real code searched for among all outcomes of the documented "
                  "choices, ties included, under ASan+UBSan",
        rule="distinct (mesh, parameters) with several coarse cells of three cells or more judged"),
    "P27": dict(
        jobs=[seq(27, 12000)],
        need={"cases": 6000, "growth_judged": 10000, "growth_depth_3": 2000, "growth_depth_4": 500, "strips": 2000, "depth_2": 500, "depth_3": 500, "depth_4": 500},
        technique="runtime monitor: each coarse cell of the real code searched for among all outcomes of the documented "
                  "choice with look-ahead, and blocks expected on stretched grids, under ASan+UBSan",
        rule="distinct (mesh, parameters) with several coarse cells of three cells or more judged, or grids"),
    "P28": dict(
        jobs=[dict(src="drv_build.cpp", mode=m, cases=5000) for m in ("asan", "O0", "O3", "clangO2", "cxx20")],
        compare=True,
        need={"cases": 12000, "compared_O0": 2500, "compared_O3": 2500, "compared_clangO2": 2500, "compared_cxx20": 2500},
        technique="runtime comparison of the same generated cases in five builds of the real code (two compilers, several "
                  "optimisation levels, with and without assertions and sanitizers)",
        rule="distinct (mesh, parameters, levels) with coarse cells of several fine cells"),
    "P34": dict(
        jobs=[installed("here", None, 3000), installed("default", ("int", "unsigned long", "double"), 3000, headers=True),
              installed("fixed", ("int64_t", "uint32_t", "long double"), 3000),
              installed("short", ("short", "unsigned long long", "double"), 3000),
              installed("signed", ("unsigned short", "int", "double"), 3000),
              installed("small", ("unsigned int", "uint16_t", "float"), 3000, headers=True),
              module("python", ("int", "unsigned long", "double"), 1500),
              module("python_long", ("long", "unsigned long long", "long double"), 1500),
              module("python_short", ("int16_t", "unsigned int", "float"), 1500)],
        compare=True,
        need={"cases": 12000, "installations": 8, "headers_alone": 20, "agglomerations": 8000, "coarse_graphs": 5000,
              "compared_default": 1500, "compared_fixed": 300, "compared_short": 1500, "compared_signed": 1500,
              "compared_small": 30, "compared_python_long": 800, "compared_python_short": 800, "python_lines": 300},
        technique="runtime comparison of the same generated cases in programs and Python modules built from installations of the "
                  "real code with several configured types, under ASan+UBSan",
        rule="distinct (mesh, parameters) with coarse cells of several fine cells"),
    "P35": dict(
        jobs=[dict(src="drv_fault.cpp", cases=4000)],
        need={"cases": 3000, "bad_alloc": 80000, "refused_for_good": 20000, "all_points": 1500, "refusals_long_form": 20000,
              "refusals_short_form": 20000, "refusals_coarse_graph": 3000, "refusals_wall_distance": 500, "refusals_filter": 800},
        technique="fault injection at run time: every allocation of the real code can be refused by the replaced allocation "
                  "functions, live blocks counted, under ASan+UBSan with leak detection",
        rule="distinct (function, mesh, parameters) with refused allocations"),
    "P36": dict(
        jobs=[dict(src="drv_scale.cpp", mode="work", cases=400, chunk=5, defs=["VF_SMALL=2000", "VF_LARGE=64000"])],
        need={"cases": 350, "isotropic": 30, "lines_built": 30, "lines_given": 12, "with_correction": 40, "calls_coarse_graph": 4,
              "calls_wall_distance": 4, "calls_filter": 4},
        technique="run-time counters: blocks of code executed (coverage callbacks of the compiler) and peak of the memory "
                  "allocated by the real code, compared between small and large meshes of the same kind; no time is measured",
        note="held on the generated pairs of meshes (2000 and 64000 cells, sometimes twice as many); a growth faster than the mesh by less than a factor "
             "of two (four with lines) is not seen",
        rule="distinct (kind of mesh, parameters)"),
    "P29": dict(
        jobs=[dict(src="drv_old.cpp", cases=24000)],
        need={"cases": 12000, "queue_pops": 30000, "queue_pops_when_empty": 5000, "pairs_compared": 400000,
              "bimap_removals": 10000, "bimap_renamings": 10000, "tree_removals_only": 2000, "tree_removals_first": 2000,
              "tree_removals_inner": 2000, "tree_removals_last": 2000},
        technique=GRAPH,
        rule="distinct histories of operations on one of the containers"),
    "P30": dict(
        jobs=[dict(src="/REPO/src/CoMMA.cpp", mode="module", out="CoMMA.so", cases=8000,
                   flags=["-I/REPO", "-I" + sysconfig.get_paths()["include"]],
                   run=["python3-vt", "/HARN/drv_tools.py", "/BIN", "/REPO/examples/scripts"])],
        need={"cases": 6000, "distances": 1500, "with_unreached_cells": 300, "coarse_cells": 10000, "from_agglomeration": 500,
              "cell_data": 1500, "shuffled": 400, "lines": 2000, "dumps": 1500},
        technique="runtime monitor: the helper functions of the examples, run with the real Python module on generated meshes, "
                  "compared with plain models after each call",
        rule="distinct (helper, mesh) of at least two cells"),
    "P21": dict(
        jobs=[dict(src="drv_grid.cpp", defs=["VF_PROP=21"], cases=10000)],
        need={"cases": 5000, "blocks2": 20000, "blocks3": 20000, "columns2": 2000, "columns3": 2000},
        technique="runtime monitor: results of the real code on generated structured grids compared with the expected blocks "
                  "and columns, under ASan+UBSan",
        rule="distinct (grid, parameters) with several blocks or some line"),
    "P22": dict(
        jobs=[dict(src="drv_py.cpp", defs=["VF_PROP=22"], cases=8000,
                   flags=["-I/REPO", "-I" + sysconfig.get_paths()["include"], "-fvisibility=hidden",
                          "-Wl,--no-as-needed,-lpython" + sysconfig.get_python_version()])],
        need={"cases": 4000, "agglomerations": 3000, "errors": 300, "defaults_used": 3000, "by_name": 2000,
              "optional_by_position": 500, "with_lines": 700, "unread_lines": 500},
        technique="runtime monitor: the real Python module, compiled from its source into an embedded interpreter, called next to "
                  "the C++ functions on generated arguments, under ASan+UBSan",
        rule="distinct (mesh, parameters, left-out arguments)"),
    "P14": dict(
        jobs=[grow(14, 24000)],
        need={"cases": 10000, "extended": 5000, "pure_front": 5000, "copies": 5000, "front_from_last": 5000,
              "front_fallback": 1000},
        technique=GRAPH,
        rule="distinct (mesh, allowed set, additions) of at least two additions after the seed"),
    "P15": dict(
        jobs=[grow(15, 16000)],
        need=dict({"cases": 8000, "ranked_pairs": 50000}, **{"criterion_%d" % i: 400 for i in range(10)}),
        technique=GRAPH,
        rule="distinct (mesh, criterion, order of additions) of at least three cells"),
    "P07": dict(
        jobs=[multi(7, 5000, args=huge(4, 5000))],
        need={"cases": 2500, "very_large_meshes": 3, "levels": 8000, "levels_with_given_lines": 500, "down_to_one_cell": 1000},
        rule="distinct (mesh, parameters, results) of at least two levels"),
    "P10": dict(
        jobs=[multi(10, 5000), dict(multi(10, 4000), defs=["VF_PROP=10", "VF_FRESH=1"])],
        need={"cases": 4500, "repeated_calls": 7000, "argument_objects": 1500, "processes": 4000},
        rule="distinct (mesh, parameters), each called four times, with coarse cells of several fine cells"),
    "P16": dict(
        jobs=[multi(16, 9000)],
        need={"cases": 4000, "scaled": 1000, "translated": 400, "axes": 500, "listing": 500},
        rule="distinct (mesh, parameters, transformation) with coarse cells of several fine cells"),
    "P17": dict(
        jobs=[multi(17, 9000, args=huge(4, 9000))],
        need={"cases": 4000, "very_large_meshes": 3, "boundary-faces": 500, "inverse-threshold": 500, "negative-threshold": 500,
              "singular-threshold": 500, "line-limit": 500, "coupling": 500, "no_line_0": 150, "no_line_1": 150,
              "no_line_2": 150, "no_line_3": 150},
        rule="distinct (mesh, parameters, normalised value) with coarse cells of several fine cells"),
    "P23": dict(
        jobs=[dict(multi(23, 2000), defs=["VF_PROP=23", "VF_PART=%d" % k], args=huge(6, 2000) if k == 0 else []) for k in range(4)],
        need={"cases": 4000, "very_large_meshes": 4, "types_uint-double-short": 400, "types_ulong-double-long": 400, "types_ushort-double-uint": 400,
              "types_ulonglong-double-longlong": 400, "types_long-double-int": 400, "types_int-double-int": 400,
              "types_ulong-longdouble-int": 800, "types_uint-float-int": 60},
        rule="distinct (mesh, parameters) with coarse cells of several fine cells"),
    "P05": dict(
        jobs=[agg(5, 12000, args=huge(3, 12000))],
        need={"cases": 6000, "very_large_meshes": 2, "lines": 10000, "long_lines": 2000, "no_line": 500},
        rule="distinct (mesh, parameters) with at least one exported line"),
    "P08": dict(
        jobs=[safe("asan", 0, 5000, args=huge(6, 5000)), safe("dbg", 1, 2500), safe("clang", 2, 3000), safe("vg", 3, 400, 30, chunk=25)],
        need={"cases": 7000, "very_large_meshes": 4, "agglomerations": 10000, "empty_mesh": 50, "coarse_graphs": 10000, "wall_distances": 5000},
        technique="sanitizers on stress workloads: ASan+UBSan with gcc and with clang, fully checked libstdc++ iterators, "
                  "valgrind for uninitialised values, library assertions on, watchdog against hangs",
        rule="distinct (mesh, parameters) run through agglomeration, coarse graphs of several levels and utilities"),
    "P09": dict(
        jobs=[dict(src="drv_args.cpp", cases=12000)],
        need=dict({"cases": 6000, "good": 1500}, **{"bad_" + k: 200 for k in (
            "dimension", "goal-below-two", "min-below-two", "max-below-two", "min-above-goal", "goal-above-max",
            "look-ahead-low", "look-ahead-high", "no-offsets", "last-offset", "connectivity-size", "weights-size",
            "lines-size", "singular-threshold", "seed-ordering", "shape-criterion")}),
        rule="distinct calls, malformed in one respect or valid"),
    "P11": dict(
        jobs=[dict(src="drv_threads.cpp", mode="tsan", cases=1200, chunk=50)],
        need={"cases": 600, "concurrent_calls": 5000, "threads": 2000, "same_arguments": 150},
        width=3,
        technique="thread sanitizer on concurrent calls sharing their inputs, and comparison with the results obtained alone",
        rule="distinct sets of concurrent calls"),
}
