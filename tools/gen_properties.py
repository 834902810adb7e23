#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
A = "include/CoMMA/Agglomerator.h"; C = "include/CoMMA/CoMMA.h"
DG = "include/CoMMA/Dual_Graph.h"; CC = "include/CoMMA/Coarse_Cell_Container.h"
CL = "include/CoMMA/Coarse_Cell.h"; SP = "include/CoMMA/Seeds_Pool.h"
NB = "include/CoMMA/Neighbourhood.h"; AR = "include/CoMMA/ARComputer.h"
UT = "include/CoMMA/Util.h"; AG = "include/CoMMA/Args.h"; PY = "src/CoMMA.cpp"
DF = "include/CoMMA/CoMMADefs.h"; D = "include/CoMMA/deprecated/"; SC = "examples/scripts/comma_tools.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("P01", "Agglomeration is a complete partition with contiguous coarse numbering",
  "For every valid mesh description and every accepted combination of parameters, one agglomeration call assigns exactly one coarse cell to every fine cell, and the coarse cells in use are numbered 0 to n-1 with none skipped. Anisotropic coarse cells, when there are any, carry the smallest numbers.",
  ["inputs", "configurations"],
  "All meshes (2D/3D, any polyhedra, disconnected domains, isolated cells, any cell numbering), all cardinality bounds, seed orderings, shape criteria, neighbourhood types, look-ahead depths, with and without anisotropy and correction.",
  "The tests look at about a dozen fixed meshes of at most 64 cells with a few parameter sets; they never look at disconnected meshes, random numberings, large singular thresholds or the cross product of options.",
  [C, A, CC],
  [("main loop until every cell is agglomerated", A), ("coarse-cell creation", CC), ("renumbering after correction", CC)],
  ["fine-to-coarse vector returned by the public call"])

p("P02", "Every coarse cell is a connected set of fine cells",
  "Each coarse cell produced by an agglomeration call is connected through the face connections of the fine mesh, with or without correction and anisotropic treatment. User-provided agglomeration lines are assumed to join neighbouring cells.",
  ["inputs", "configurations"],
  "All valid meshes and accepted parameters, including the correction with any singular-cardinality threshold.",
  "The tests compare a few expected coarse cells; connectivity under correction with larger thresholds, under pure-front growth and look-ahead is never examined in general.",
  [A, CC, NB, DG],
  [("candidates are neighbours of the growing cell", NB), ("correction moves cells to neighbouring coarse cells only", CC)],
  ["fine-to-coarse vector returned by the public call, checked by traversal of the input graph"])

p("P03", "Cardinality bounds of coarse cells are respected",
  "Without correction, an isotropic coarse cell never holds more fine cells than the requested maximum, and holds fewer than the requested minimum only if no still available fine cell touched it when it was created. Anisotropic coarse cells hold two fine cells, or three if odd lines are allowed.",
  ["inputs", "configurations"],
  "All valid meshes and all minimum <= goal <= maximum cardinalities from 2 upwards, both neighbourhood types, all look-ahead depths.",
  "Tests use one or two cardinality triples on tiny regular meshes; the lower bound is not tested anywhere as a universal statement.",
  [A, C],
  [("choice of the optimal intermediate coarse cell", A), ("neighbourhood extension until enough cells", DG)],
  ["coarse cells grouped from the returned vector; numbering order gives the creation order"])

p("P04", "Correction removes singular cells and does nothing else",
  "With correction on, compared with the same call with correction off: coarse cells larger than the singular threshold keep all their fine cells together, anisotropic coarse cells and lines are unchanged, and no isotropic coarse cell at or below the threshold that touches another isotropic coarse cell remains. Each lone cell joins the isotropic neighbour preferred by the documented ranking: compactness gain, then shared faces, then smaller size, then lower number; a larger cell below the threshold goes as a whole to the smallest, then lowest, neighbour whose compactness it raises, if there is one.",
  ["inputs", "configurations"],
  "All valid meshes and parameters; all singular-cardinality thresholds below the minimum cardinality.",
  "Four correction examples are tested; interaction of several singular cells, thresholds above one and anisotropic neighbours are unlimited in number.",
  [CC, CL, C],
  [("correction loop over singular coarse cells", CC), ("ranking of the neighbouring coarse cells", CC)],
  ["pairs of public calls with and without correction"])

p("P05", "Anisotropic lines follow the documented detection rules",
  "When lines are built, only compliant cells whose face-size ratio reaches the threshold (all compliant cells if it is negative) join a line, seeds being taken by priority weight then number. A line grows from a seed through strongly coupled neighbours, keeping its direction if this is requested, first one way and then the other, never takes a cell of another line and stops only when no cell qualifies; lines of one cell are dropped.",
  ["inputs", "configurations"],
  "All meshes, compliant sets, thresholds, priorities, both couplings, both direction modes, 2D and 3D.",
  "Tests build lines on two boundary-layer-like meshes; thresholds, couplings, bends and competing seeds are not exercised in general.",
  [A, DG, UT],
  [("tagging of anisotropic cells", DG), ("line construction", A), ("direction test", UT)],
  ["returned lines and fine-to-coarse vector, compared with an independent line builder"])

p("P06", "Lines are agglomerated pairwise from the right end and exported faithfully",
  "Every line with at least two cells is cut into consecutive pairs starting from its end with more boundary faces (then higher priority, then lower number), a last group of three being made if three cells remain and odd groups are allowed, and never using more than the requested maximum number of cells per line. The exported lines list exactly the resulting coarse cells, line by line and in order, in the offset-plus-values format, for built as well as for user-given lines.",
  ["inputs", "configurations"],
  "All line sets (built or given), lengths, odd/even handling, per-line cell limits.",
  "The tests fix a few line lengths; combinations of length, limit, orientation and odd handling are not covered.",
  [A, C],
  [("loop over a line", A), ("export of the lines", A), ("selection of user-given lines", A)],
  ["returned fine-to-coarse vector and lines"])

p("P07", "Repeated coarsening stays valid down to the coarsest level",
  "Feeding the coarse graph and the returned lines of one level to the next call works at every level: each level is again a partition into connected coarse cells within the cardinality bounds, every line of the finer level is coarsened along its own cells, and volumes and boundary information are carried over. The composition of all levels is a partition of the finest mesh into connected sets.",
  ["histories", "inputs", "configurations"],
  "All sequences of levels on all meshes with all parameter sets, with lines built once and reused.",
  "Only the example programs run more than one level, on fixed meshes, without examining the outcome.",
  [C, A, UT],
  [("lines as in/out arguments", C), ("coarse graph construction", UT)],
  ["every level of multi-level runs"])

p("P08", "No memory error, undefined behaviour or hang on any valid input",
  "Every call of the public functions with arguments that satisfy the documented requirements returns, without reading or writing outside the data, without undefined behaviour and without internal assertion failure. This includes degenerate but valid meshes: a single cell, no cell at all, isolated cells, disconnected parts, stars and complete graphs.",
  ["inputs", "configurations"],
  "All valid meshes and parameters, including extreme priorities, weights and degrees.",
  "The tests run without sanitizers on benign meshes; out-of-range reads in a header-only template library usually go unnoticed.",
  [C, A, CC, DG, NB, SP, AR, UT],
  [("argument checks", C), ("bounds kept by every container walk", A)],
  ["instrumented process: address and undefined-behaviour sanitizers, checked standard containers, assertions, watchdog"])

p("P09", "Invalid arguments are rejected, valid ones accepted",
  "A call with a malformed argument (dimension other than 2 or 3, a cardinality below two, cardinalities out of order, look-ahead depth outside 1 to 4, inconsistent connectivity or line arrays, non-positive singular threshold, unknown seed ordering or shape criterion) raises an invalid-argument error before the fine-to-coarse output is changed. Every other call succeeds without error.",
  ["inputs", "configurations"],
  "All single and combined deviations from the documented argument requirements.",
  "The tests try one value for most of the arguments and never check that the output was left alone nor the boundary values that must be accepted.",
  [C, AG],
  [("sanity checks at the start of the call", C)],
  ["outcome of public calls with perturbed arguments"])

p("P10", "Results depend on the arguments only",
  "Calling twice with equal arguments gives equal results, whatever was computed before, whatever the output vectors contained, and whichever of the two public call forms is used. The input arrays are left unchanged.",
  ["histories", "inputs", "configurations"],
  "All call sequences in one process and across processes.",
  "Tests make one call per object and never compare repeated calls, dirty outputs or the two overloads on general inputs.",
  [C, AG, A, SP],
  [("all state local to the call", C), ("forwarding overload", C)],
  ["pairs of calls with equal arguments"])

p("P11", "Concurrent agglomerations do not interfere",
  "Any number of threads may agglomerate at the same time, sharing read-only inputs: there is no data race and each thread gets the result it would get alone.",
  ["schedules", "inputs"],
  "All interleavings of concurrent calls on shared constant inputs with separate outputs.",
  "No test uses threads.",
  [C, A, SP, DG, UT],
  [("no global mutable state", C)],
  ["thread-sanitized process and comparison with sequential results"])

p("P12", "Seeds are taken in the documented priority order",
  "Each isotropic coarse cell grows from the seed designated by the selected ordering: with boundary priority, always a remaining cell with the most boundary faces; with neighbourhood priority, cells next to already built coarse cells first; then earlier queued, then higher priority weight, then lower number, starting from all or from one of the most exposed cells. In every case the seed is a cell not yet agglomerated.",
  ["inputs", "configurations", "histories"],
  "All meshes, boundary-face counts, priority weights (any sign) and the four orderings.",
  "Seed-pool tests replay a handful of short scripted sequences; they cannot cover the interaction with the agglomeration history.",
  [SP, A, C],
  [("queues per number of boundary faces", SP), ("update after each coarse cell", A)],
  ["coarse cells in creation order, against a replayed model of the documented queue rules; the seed pool driven directly"])

p("P13", "Coarse cells grow by the documented choice of the next cell",
  "Starting from its seed, an isotropic coarse cell (without look-ahead) is one of those obtained by repeatedly adding, among the candidates of the chosen neighbourhood within the distance limit, a cell with the most shared faces, then closest to the seed, then giving the lowest aspect ratio, and by keeping, among the intermediate cells of allowed size, the most compact, then the one with fewest external faces, then the one of goal size or the largest. If fewer cells than the goal are within reach, all of them are taken.",
  ["inputs", "configurations"],
  "All meshes, shape criteria, neighbourhoods, cardinalities.",
  "Tests check the outcome on a few symmetric meshes where many wrong choices give the same answer.",
  [A, AR, NB, DG],
  [("choice of the best fine cell", A), ("choice among the intermediate coarse cells", A)],
  ["coarse cells in creation order, against the set of outcomes admitted by the documented criteria"])

p("P14", "Candidate cells offered during growth are exactly the eligible ones",
  "While a coarse cell grows, the extended neighbourhood offers exactly the allowed cells adjacent to it and not in it; the pure-front neighbourhood does so up to as many cells as the dimension and then offers the allowed neighbours of the last added cell, falling back on earlier ones only if there is none. No cell is offered twice or after having been added, those newly offered come by decreasing priority then increasing number, and a copy evolves independently of its original.",
  ["histories", "inputs"],
  "All sequences of additions on all graphs with any set of allowed cells.",
  "Tests replay two short sequences on one grid.",
  [NB],
  [("extended neighbourhood update", NB), ("pure-front neighbourhood update", NB)],
  ["candidate lists after every addition"])

p("P15", "Shape measures equal their definition however the cell was assembled",
  "The features kept while a coarse cell grows (measure, diameter, smallest centre distance, internal and external weights, number of internal faces and shared faces) equal those recomputed from its set of fine cells, whatever the order of additions. Every shape criterion ranks candidate cells as its defining formula does.",
  ["histories", "inputs", "configurations"],
  "All growth orders on all meshes in 2D and 3D, for the ten shape criteria.",
  "Tests evaluate each criterion on a couple of unit-cell configurations, where several wrong formulas agree.",
  [AR, DG],
  [("incremental feature updates", AR), ("estimated boundary weights", DG)],
  ["feature records and aspect-ratio values after every addition"])

p("P16", "Results do not depend on units, position, orientation or listing order",
  "Translating, rescaling by a common length unit, or swapping the coordinate axes of a mesh does not change the isotropic agglomeration for the scale-free shape criteria, nor the anisotropic lines. Without anisotropic treatment, the order in which the neighbours of a cell are listed does not change the result.",
  ["inputs", "configurations"],
  "All meshes and all such transformations for which floating-point arithmetic is exact.",
  "No test compares two descriptions of the same mesh.",
  [AR, A, DG, NB],
  [("shape criteria", AR), ("direction test of the lines", UT)],
  ["pairs of public calls on equivalent descriptions"])

p("P17", "Out-of-range tuning values are normalised as documented",
  "Boundary-face counts above the dimension act as the dimension; an anisotropy threshold between 0 and 1 acts as its inverse and any negative one disables the test; a singular threshold not below the minimum cardinality acts as the minimum cardinality minus one; a null line-length limit (when building lines) and an unknown coupling act as the defaults. Anisotropic treatment without any usable line gives the isotropic result and empty lines.",
  ["inputs", "configurations"],
  "All meshes and all such values.",
  "Tests do not compare a normalised call with its explicit equivalent.",
  [C, A],
  [("warn-and-adjust checks", C), ("threshold inversion", A)],
  ["pairs of public calls"])

p("P18", "The coarse graph conserves the geometry of the fine one",
  "Building the coarse graph sums volumes, gives each coarse cell the volume-weighted centre, the largest priority and the largest number of boundary faces of its cells, and connects exactly the pairs of coarse cells that share fine faces, symmetrically, without duplicates nor self-connections, with the sum of the weights of these faces. Total volume and the total weight across coarse interfaces are conserved.",
  ["inputs"],
  "All fine graphs (weights, volumes, centres, priorities of any sign) and all fine-to-coarse maps.",
  "The only test has unit volumes and weights on a regular grid, where wrong indexing gives the right numbers.",
  [UT],
  [("coarse graph construction", UT)],
  ["all output arrays against direct summation"])

p("P19", "Neighbourhood-based wall distance is the graph distance to the wall",
  "The distance computed for each cell is the least number of faces to cross to reach a wall cell; wall cells have distance zero and cells that cannot reach the wall minus one.",
  ["inputs"],
  "All graphs and wall sets, including empty walls, all-wall, and disconnected graphs.",
  "Tests use one connected grid with two walls.",
  [UT],
  [("breadth-first propagation", UT)],
  ["distance array against an independent breadth-first search"])

p("P20", "Filtering by number of faces selects exactly the requested cells",
  "The cells returned are exactly those whose number of neighbours plus boundary faces is one of the positive requested numbers, each once and in increasing order; without any positive requested number nothing is returned.",
  ["inputs"],
  "All graphs, boundary-face counts and requested sets.",
  "Tests use one grid and five sets.",
  [UT],
  [("filter", UT)],
  ["returned index list"])

p("P21", "Structured regions give structured coarse cells",
  "On Cartesian grids with even numbers of cells in each direction and goal cardinality 4 in 2D or 8 in 3D, the isotropic agglomeration with the default neighbourhood gives exactly the 2x2 or 2x2x2 blocks, whatever the spacings, numbering, priorities, seed ordering, shape criterion, correction and minimum and maximum (up to one and a half times the goal). On Cartesian boundary layers the anisotropic lines are the grid columns of the stretched cells, grouped in pairs from the wall.",
  ["inputs", "configurations"],
  "All even grid sizes, spacings and numberings; all layer heights and stretchings.",
  "Tests check 4x4 and a few tiny cases only.",
  [A, SP, AR],
  [("seed ordering", SP), ("aspect-ratio driven growth", A)],
  ["returned vector against the expected blocks"])

p("P22", "The Python module gives the results of the C++ library",
  "Each function of the Python module returns exactly what the C++ function returns for the same arguments, including default values, enumerations, returned lines and raised errors.",
  ["inputs", "configurations"],
  "All argument combinations, positional, keyword and defaulted.",
  "The Python examples are run but their results are not compared with those of the library.",
  [PY, C, UT],
  [("binding definitions and default arguments", PY)],
  ["results of both interfaces on the same inputs"])

p("P23", "Results do not depend on the integer and real types chosen",
  "Instantiating the library with other index, integer and real types gives the same coarse cells and lines, as long as the input values are exactly representable in them.",
  ["configurations", "inputs"],
  "Signed and unsigned, 16-, 32- and 64-bit index and integer types, single and double (and extended) precision.",
  "Tests are compiled for one triple of types.",
  [C, A, DG, NB, SP, AR, UT],
  [("templates over the three types", C)],
  ["results of several instantiations on the same inputs"])

p("P24", "Graph queries agree with their graph-theoretic definition",
  "Neighbourhoods by order, the compactness of a set of cells, the not-yet-agglomerated neighbours of a coarse cell, face counts, estimated boundary weights and connectivity reported by the mesh graph are those of the graph given as input, for any set of cells and any state of the agglomeration.",
  ["inputs", "histories"],
  "All graphs, cell subsets, orders and agglomeration states, repeated queries on the same object.",
  "Tests query two small grids.",
  [DG],
  [("neighbourhood computation", DG), ("compactness computation", DG)],
  ["query results against independent graph algorithms"])

p("P25", "Incrementally edited sub-graphs stay equal to the induced sub-graph",
  "After any sequence of node insertions and removals a sub-graph holds exactly the nodes, symmetric connections and weights that were inserted and not removed, and answers connectivity queries accordingly; a coarse cell that owns a sub-graph lists the same cells, size and compactness.",
  ["histories", "inputs"],
  "All sequences of insertions and removals.",
  "Tests do one insertion and one removal.",
  [DG, CL],
  [("node insertion", DG), ("node removal", DG)],
  ["sub-graph arrays after every operation"])

p("P26", "Coarse-cell bookkeeping is consistent after every operation",
  "After any sequence of coarse-cell creations (immediate, delayed, anisotropic) and a final correction, each agglomerated fine cell is in exactly the coarse cell it is mapped to, sizes, compactness degrees and counts match, delayed cells get the next numbers, and after correction the numbering is contiguous, keeps the creation order, and no isotropic cell at or below the threshold is left next to another isotropic one.",
  ["histories", "inputs"],
  "All sequences of creations on all graphs and all singular thresholds.",
  "Tests run a few fixed creation sequences.",
  [CC, CL],
  [("coarse-cell creation", CC), ("delayed creation", CC), ("correction and renumbering", CC)],
  ["container contents after every operation"])

p("P27", "Look-ahead weighs the next step when choosing a cell",
  "With a look-ahead depth k of two or more, each fine cell added to a coarse cell under construction is one of the candidates for which the larger of the faces it shares with the coarse cell and the faces that the following cell, chosen in the same way with depth k-1, would then share is greatest, cells closer to the seed being preferred among equals. No more steps are foreseen than cells can still be added, so that the last addition uses the plain choice. On regular grids of stretched cells any depth from two to four makes the first coarse cell of goal size four a 2x2 block, whatever its seed.",
  ["inputs", "configurations"],
  "All meshes, seeds, neighbourhoods, cardinalities and shape criteria, depths two to four.",
  "One fixed mesh with depth two is tested.",
  [A, NB, AR],
  [("iterative choice of the next cell", A), ("copy of the neighbourhood for the foreseen steps", NB)],
  ["coarse cells in creation order, searched for among all outcomes of the rule"])

p("P28", "Results do not depend on compiler, optimisation or assertions",
  "The same calls give the same coarse cells, lines, coarse connections, distances and filtered cells whichever supported compiler, optimisation level and language standard (C++17 or later) the library is compiled with, and whether or not assertions are enabled.",
  ["configurations", "inputs"],
  "All build configurations without relaxed floating-point rules; all valid inputs, several successive levels.",
  "The tests are run in one build only.",
  [C, A, CC, CL, SP, NB, AR, DG, UT],
  [("assertions spread over the headers", A), ("header-only templates compiled by the user", C)],
  ["results of the same generated calls in separately built programs"])

p("P29", "Retired containers keep their documented behaviour",
  "The containers kept in include/CoMMA/deprecated do what they document whatever the operations done before: the queue gives its elements in the order they were added and -1 when empty, priority pairs are ordered by decreasing first and increasing second element, the two-way map keeps both directions in step through insertions, renamings and removals, and the tree keeps the children of its root, their order, links and number through insertions and removals of any child.",
  ["histories", "inputs"],
  "All sequences of operations with distinct keys.",
  "Tests run one short sequence per container; the one for the tree is disabled.",
  [D + "Queue.h", D + "Priority_Pair.h", D + "Bimap.h", D + "Tree.h"],
  [("queue", D + "Queue.h"), ("priority pair", D + "Priority_Pair.h"), ("two-way map", D + "Bimap.h"), ("tree", D + "Tree.h")],
  ["contents after every operation, next to standard containers"])

p("P30", "Python helper tools compute what they document",
  "The helper functions given with the Python examples agree with their description on every mesh: distances to a wall (negative, with a warning, for the cells that cannot be reached), the coarse graph of an agglomeration (connections, summed face weights, volumes, boundary faces, averaged centres), cell data per block of elements, numbers of the agglomeration lines with respect to the default value, and dumped graphs that can be read back. They do not modify what they are given.",
  ["inputs"],
  "All meshes, including isolated cells and several components, given as lists or arrays of several integer types; all maps from fine to coarse cells.",
  "The helpers are not run by any test.",
  [SC, PY],
  [("wall distance", SC), ("coarse graph", SC), ("cell and line data", SC), ("dump", SC)],
  ["values returned by each helper"])

p("P31", "Options left out take their documented default values",
  "A call that leaves out optional arguments, in the long form or through the argument objects, gives the same result as the call with the documented defaults written out: diameter-over-radius shape criterion, singular threshold one, no limit to the cells of a line, coupling by greatest weight, straight lines, one look-ahead step, extended neighbourhood, and, for the anisotropic argument object, lines built, odd lines allowed and threshold four.",
  ["inputs", "configurations"],
  "All valid meshes and parameters; every number of options left out of each of the constructors and of the long form.",
  "Tests always give most of the options, and on meshes for which several values give the same result.",
  [C, "include/CoMMA/Args.h"],
  [("default arguments of the long form", C), ("default arguments of the argument objects", "include/CoMMA/Args.h"), ("wrapper taking the argument objects", C)],
  ["results of pairs of public calls"])

p("P32", "Numerical and ordering helpers equal their definition",
  "The helper functions on which the algorithms rest agree with their documentation: squares, cubes and integer powers, dot products, squared distances (in the dimension of the first point), unit directions with their length, the test of deviation at twenty degrees, the two orderings of pairs (by second element, then opposite by first one, both strict), and the extraction or search of first elements and keys.",
  ["inputs"],
  "All arguments, for integer and real types; powers zero to nine.",
  "Tests use two of the orderings on one small set each; the other helpers are reached only through whole agglomerations.",
  [UT],
  [("powers", UT), ("vector functions", UT), ("orderings of pairs", UT)],
  ["values returned by each helper"])

p("P33", "Cells are tagged anisotropic by ratio, compliance and requested shape",
  "The mesh graph tags as anisotropic exactly the compliant cells whose ratio of largest to smallest face (its square root in 3D) reaches the threshold, all the compliant ones if the threshold is negative; if the boundary layer is to be preserved, only those with the number of faces of a quadrangle (2) or a hexahedron (3). The tagged cells come by decreasing priority, then increasing number. The largest coupling of each compliant cell and, for coupling by distance, the inverse squared distances to its neighbours are given back.",
  ["inputs", "configurations"],
  "All meshes, compliant sets, thresholds (also exactly the ratio of a cell), both couplings, priorities, the three preservation modes, 2D and 3D.",
  "Tests tag the cells of one mesh, with thresholds that keep all of them and without preservation.",
  ["include/CoMMA/Dual_Graph.h"],
  [("tagging of anisotropic cells", "include/CoMMA/Dual_Graph.h"), ("aspect-ratio of a cell", "include/CoMMA/Dual_Graph.h")],
  ["tags, ordered cells, couplings given back"])

p("P34", "An installation works by itself with the types it was configured for",
  "After configuring with any signed or unsigned integer types for indices and integers and any of the three real types, and installing, every installed header compiles by itself, several files of one program can include the headers, the types are those asked for, and agglomeration, coarse graphs, distances and filters give in C++ and in the Python module the same results as the default configuration, for values exactly representable in the types.",
  ["configurations", "inputs"],
  "Fixed-width, small, long, signed and unsigned types, float, double and long double; every installed header, two compilers; all meshes and parameters.",
  "Tests are built in the source tree, in one file including all the headers, with the default types.",
  [C, A, DG, UT, "include/CoMMA/CoMMADefs.h", "src/CoMMA.cpp"],
  [("public entry point", C), ("enumerations inherit from the configured integer type", "include/CoMMA/CoMMADefs.h"), ("Python module instantiated with the configured types", "src/CoMMA.cpp")],
  ["compilation of the installed headers", "results in programs and modules of several installations"])

p("P35", "Running out of memory during a call has no after-effect",
  "If an allocation fails during a call of a public function, the call ends with the standard out-of-memory exception, or still returns the right result if it can do without. Nothing leaks, the inputs are unchanged, and the same call made later gives the result it would have given.",
  ["fault_sequences", "inputs"],
  "Refusal of any single allocation, or of one and all the following, during both call forms, the coarse graph, the wall distance and the filter; all meshes and parameters.",
  "No test makes an allocation fail; the points at which it can are thousands per call.",
  [C, A, CC, UT],
  [("ownership through containers and shared pointers", A), ("no state outside the objects of the call", C)],
  ["kind of exception, blocks of memory in use before and after, inputs, later results"])

p("P36", "Memory and work grow in proportion to the mesh",
  "For meshes of one kind and the same parameters, the memory needed at most and the number of steps executed by an agglomeration, a coarse graph, a wall distance or a filter grow in proportion to the size of the mesh, up to a logarithm. This holds with and without correction and for built and given lines.",
  ["inputs", "configurations"],
  "Structured and unstructured meshes in 2D and 3D, with holes, long and short columns, graphs; any numbering; all parameters with coarse cells of moderate size.",
  "The meshes of the tests have at most 64 cells: a cost that grows with the square of the size cannot be seen.",
  [A, CC, DG, SP, UT],
  [("update of the seeds pool", A), ("renumbering after correction", CC), ("traversals limited to the neighbourhood", DG)],
  ["blocks of code executed and bytes allocated during the public calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
