"""P34: the Python module, built with the types given to the configuration.
Prints what went in and what came out of each case; the runner compares.

drv_pytypes.py MODULE --seed S --from A --to B --out FILE --progress FILE
"""
import hashlib
import json
import os
import random
import sys

sys.path[:0] = [os.path.dirname(sys.argv[1])]
sys.dont_write_bytecode = True
import CoMMA  # noqa: E402

opt = {"--seed": "1", "--from": "0", "--to": "1", "--out": "/dev/stdout", "--progress": None}
args = sys.argv[2:]
verbose = "--verbose" in args
args = [a for a in args if a != "--verbose"]
for k, v in zip(args[::2], args[1::2]):
    opt[k] = v
seed = int(opt["--seed"])
out = open(opt["--out"], "w")
cnt, distinct, samples = {}, set(), []


def count(k, n=1):
    cnt[k] = cnt.get(k, 0) + n


def grid(r):
    """Uniform grid: everything is exact in all the real types"""
    dim = r.choice((2, 3))
    size = [r.randint(1, 6), r.randint(1, 6), r.randint(1, 3) if dim == 3 else 1]
    h = r.choice((0.5, 1.0, 2.0))
    pos = [(i, j, k) for k in range(size[2]) for j in range(size[1]) for i in range(size[0])]
    r.shuffle(pos)
    num = {p: i for i, p in enumerate(pos)}
    row, col, cen, bnd = [0], [], [], []
    for p in pos:
        es, b = [], 0
        for d in range(dim):
            for s in (-1, 1):
                q = tuple(x + (s if e == d else 0) for e, x in enumerate(p))
                if q in num:
                    es.append(num[q])
                else:
                    b += 1
        r.shuffle(es)
        col += es
        row.append(len(col))
        cen.append([h * (x + 0.5) for x in p[:dim]])
        bnd.append(b)
    n = len(pos)
    prio = [float(x) for x in (r.choices(range(5), k=n) if r.random() < 0.5 else r.sample(range(n), n))]
    return dim, n, row, col, [h ** (dim - 1)] * len(col), [h ** dim] * n, cen, prio, bnd


def one(k):
    r = random.Random("%d/%d" % (seed, k))
    dim, n, row, col, w, vol, cen, prio, bnd = grid(r)
    goal = r.choice((2, 4, 8))
    lo, hi = r.randint(2, goal), r.randint(goal, 8)
    aniso = r.random() < 0.4
    given = [r.randrange(n) for _ in range(r.randint(0, n))]
    given = list(dict.fromkeys(given)) if r.random() < 0.5 else list(range(n))
    seeds = list(CoMMA.SeedsPool.__members__)
    a = dict(adjMatrix_row_ptr=row, adjMatrix_col_ind=col, adjMatrix_areaValues=w, volumes=vol, centers=cen, priority_weights=prio,
             anisotropicCompliantCells=given, n_bnd_faces=bnd, build_anisotropic_lines=True, is_anisotropic=aniso,
             odd_line_length=r.random() < 0.5, threshold_anisotropy=r.choice((0.5, 1.0, 4.0)),
             seed_ordering_type=getattr(CoMMA.SeedsPool, r.choice(seeds)), agglomerationLines_Idx=[],
             agglomerationLines=[], correction=r.random() < 0.7, dimension=dim, goal_card=goal, min_card=lo, max_card=hi)
    call = list(a.values())
    shape = r.choice(("DIAMETER_OVER_RADIUS", "DIAMETER_OVER_MIN_EDGE", "DIAMETER", "ONE_OVER_MEASURE", "ONE_OVER_INTERNAL_WEIGHTS"))
    more = r.random() < 0.7
    sing, line, coup, force = r.randint(1, 4), r.choice((None, 3, 5)), r.choice(list(CoMMA.CellCoupling.__members__)), r.random() < 0.5
    nei = r.choice(list(CoMMA.Neighbourhood.__members__))
    if more:
        call += [getattr(CoMMA.AR, shape), sing, line, getattr(CoMMA.CellCoupling, coup), force, 1, getattr(CoMMA.Neighbourhood, nei)]
    dist = CoMMA.compute_neighbourhood_based_wall_distance(row, col, [r.randrange(n)])
    f2c, idx, lines = CoMMA.agglomerate_one_level(*call)
    res = [list(map(int, x)) for x in (f2c, idx, lines, dist)]
    count("python_agglomerations")
    count("monitor_evaluations")
    ins = repr([str(x) for x in call])
    if len(set(f2c)) < n:
        hsh = int(hashlib.sha256(ins.encode()).hexdigest()[:15], 16)
        distinct.add("%016x" % hsh)
        if len(samples) < 2 and 3 < n < 12:
            samples.append("module: %s -> %s" % (ins, res))
    if aniso and lines:
        count("python_lines")
    h = [hashlib.sha256(x.encode()).hexdigest()[:16] for x in (ins, repr(res))]
    out.write(json.dumps({"type": "res", "case": k, "in": h[0], "out": h[1]}) + "\n")
    if verbose:
        print(ins, res, file=sys.stderr)


for case in range(int(opt["--from"]), int(opt["--to"])):
    if opt["--progress"]:
        with open(opt["--progress"], "w") as f:
            f.write("%d\n" % case)
    count("cases")
    one(case)
out.write(json.dumps({"type": "end", "counters": cnt, "samples": samples, "distinct": sorted(distinct)}) + "\n")
out.close()
