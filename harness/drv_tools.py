"""P30: the helper functions of examples/scripts/comma_tools.py next to plain
models. Same command line and output as the C++ drivers.

drv_tools.py MODULE_DIR SCRIPTS_DIR --seed S --from A --to B --out FILE --progress FILE
"""
import hashlib
import json
import os
import random
import sys
import tempfile
import warnings
from collections import deque

mod, scripts = sys.argv[1:3]
sys.path[:0] = [os.path.dirname(mod), scripts]
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402
import CoMMA  # noqa: E402
import comma_tools as ct  # noqa: E402

opt = {"--seed": "1", "--from": "0", "--to": "1", "--out": "/dev/stdout", "--progress": None}
args = sys.argv[3:]
verbose = "--verbose" in args
args = [a for a in args if a != "--verbose"]
for k, v in zip(args[::2], args[1::2]):
    opt[k] = v
seed = int(opt["--seed"])
out = open(opt["--out"], "w")
cnt, distinct, samples = {}, set(), []
n_viol = 0
case = 0


def count(k, n=1):
    cnt[k] = cnt.get(k, 0) + n


def require(ok, key, msg):
    global n_viol
    count("monitor_evaluations")
    if not ok:
        n_viol += 1
        out.write(json.dumps({"type": "viol", "case": case, "key": key, "msg": msg[:3000]}) + "\n")
        out.flush()
        if verbose:
            print("VIOLATION", key, msg, file=sys.stderr)
    return bool(ok)


def recognised(key, msg):
    """A failure whose cause is recognised exactly; whether it is known is decided by the caller of this driver"""
    count("monitor_evaluations")
    out.write(json.dumps({"type": "viol", "case": case, "key": key, "msg": msg[:3000]}) + "\n")
    out.flush()
    if verbose:
        print("VIOLATION", key, msg, file=sys.stderr)


class Mesh:
    pass


def gen_mesh(r):
    m = Mesh()
    m.dim = r.choice((2, 3))
    n = r.randint(1, 40)
    adj = [dict() for _ in range(n)]
    kind = r.randint(0, 2)
    if kind == 0:  # tree with more edges
        for i in range(1, n):
            if r.random() < 0.9:
                adj[i][r.randrange(i)] = 0
    elif kind == 1:  # grid
        nx = r.randint(1, 7)
        for i in range(n):
            if i % nx:
                adj[i][i - 1] = 0
            if i >= nx:
                adj[i][i - nx] = 0
    if kind != 1:
        for _ in range(r.randint(0, 2 * n)):
            a, b = r.randrange(n), r.randrange(n)
            if a != b:
                adj[a][b] = 0
    val = r.choice((lambda: 1.0, lambda: float(r.randint(1, 8)), lambda: r.uniform(0.1, 4)))
    for a in range(n):
        for b in list(adj[a]):
            adj[a][b] = adj[b][a] = val()
    num = list(range(n))
    r.shuffle(num)
    rows = [None] * n
    for a in range(n):
        es = [(num[b], w) for b, w in adj[a].items()]
        r.shuffle(es)
        rows[num[a]] = es
    m.n = n
    m.row, m.col, m.val = [0], [], []
    for es in rows:
        m.col += [b for b, _ in es]
        m.val += [w for _, w in es]
        m.row.append(len(m.col))
    m.vol = [r.uniform(0.5, 2) for _ in range(n)]
    m.bnd = [r.randint(0, 3) for _ in range(n)]
    m.cen = [[r.uniform(-2, 2) for _ in range(m.dim)] for _ in range(n)]
    return m


def give(r, x, integer=False):
    """A list, an array, or an array of another type"""
    k = r.randint(0, 2)
    if k == 0:
        return x
    if k == 1 or not integer:
        return np.array(x)
    return np.array(x, dtype=r.choice((np.int32, np.uint64, np.int64)))


def desc(m):
    return "row=%s col=%s val=%s" % (m.row, m.col, m.val)


def distance(r, m):
    wall = sorted(r.sample(range(m.n), r.randint(1, min(m.n, 4))))
    if r.random() < 0.3:
        r.shuffle(wall)
    want = [-1] * m.n
    q = deque(wall)
    for w in wall:
        want[w] = 0
    while q:
        a = q.popleft()
        for b in m.col[m.row[a]:m.row[a + 1]]:
            if want[b] < 0:
                want[b] = want[a] + 1
                q.append(b)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            got = ct.compute_neighbourhood_wall_distance(give(r, m.row, True), give(r, m.col, True), give(r, wall, True))
        except ValueError as e:
            alone = [w for w in wall if m.row[w] == m.row[w + 1]]
            if not alone or "zero-sized" not in str(e).lower():
                raise
            recognised("distance-wall-cell-without-neighbours", "%s | wall cells without neighbours %s | %s" % (e, alone, desc(m)))
            return
    require(list(got) == want, "distance", "wall %s: %s instead of %s | %s" % (wall, list(got), want, desc(m)))
    require(bool(ws) == (min(want) < 0), "distance-warning", "warning %s, distances %s | %s" % (len(ws), want, desc(m)))
    count("distances")
    if min(want) < 0:
        count("with_unreached_cells")
    # The same from the library
    if min(want) >= 0:
        lib = list(CoMMA.compute_neighbourhood_based_wall_distance(m.row, m.col, wall))
        require(lib == want, "distance-library", "library %s, helper %s | %s" % (lib, want, desc(m)))


def coarse(r, m):
    if r.random() < 0.5:
        f2c, _, _ = CoMMA.agglomerate_one_level(
            m.row, m.col, m.val, m.vol, m.cen, [1.0] * m.n, list(range(m.n)), m.bnd, False, False, False, -1.0, 0, [], [],
            False, m.dim, 4, 2, 5)
        count("from_agglomeration")
    else:
        f2c = [r.randrange(1 + m.n // 2) for _ in range(m.n)]
        used = sorted(set(f2c))
        f2c = [used.index(c) for c in f2c]
    nc = max(f2c) + 1
    across = [m.col[k] for a in range(m.n) for k in range(m.row[a], m.row[a + 1]) if f2c[a] != f2c[m.col[k]]]
    try:
        res = ct.build_coarse_graph(give(r, f2c, True), give(r, m.row, True), give(r, m.col, True), give(r, m.val),
                                    give(r, m.vol), give(r, m.bnd, True), give(r, m.cen))
    except IndexError as e:
        # The defect below, when there are fewer weights than cells
        if not across or max(across) < len(m.val):
            raise
        recognised("coarse-weights-at-neighbour-number", "%s | f2c=%s | %s" % (e, f2c, desc(m)))
        return
    row, col, val, vol, bnd, cen = (np.asarray(x) for x in res)
    con, at_neigh = {}, {}
    for a in range(m.n):
        for k in range(m.row[a], m.row[a + 1]):
            x, y = f2c[a], f2c[m.col[k]]
            if x != y:
                con[(x, y)] = con.get((x, y), 0) + m.val[k]
                at_neigh[(x, y)] = at_neigh.get((x, y), 0) + (m.val[m.col[k]] if m.col[k] < len(m.val) else float("nan"))
    say = "f2c=%s | %s" % (f2c, desc(m))
    if not require(len(row) == nc + 1 and row[0] == 0 and row[-1] == len(col) == len(val) == len(con)
                   and len(vol) == len(bnd) == len(cen) == nc, "coarse-sizes", "sizes | " + say):
        return
    got = {(a, int(col[k])): val[k] for a in range(nc) for k in range(row[a], row[a + 1])}

    def weights_are(model):
        return set(got) == set(model) and all(abs(w - got[e]) <= 1e-12 * abs(w) for e, w in model.items())
    what = "row=%s col=%s val=%s | %s" % (list(row), list(col), list(val), say)
    if not weights_are(con) and weights_are(at_neigh):
        recognised("coarse-weights-at-neighbour-number", what)
    else:
        require(weights_are(con), "coarse-connections", what)
    for c in range(nc):
        fcs = [f for f in range(m.n) if f2c[f] == c]
        v = sum(m.vol[f] for f in fcs)
        require(abs(vol[c] - v) <= 1e-12 * v, "coarse-volume", "coarse cell %d | %s" % (c, say))
        require(bnd[c] == max(m.bnd[f] for f in fcs), "coarse-boundary", "coarse cell %d | %s" % (c, say))
        want = [sum(m.cen[f][d] * m.vol[f] for f in fcs) / v for d in range(m.dim)]
        require(all(abs(want[d] - cen[c][d]) < 1e-9 for d in range(m.dim)), "coarse-centre", "coarse cell %d | %s" % (c, say))
    count("coarse_cells", nc)
    # The connections the library finds
    lib = CoMMA.build_coarse_graph(f2c, m.row, m.col, m.val, m.vol, m.cen, [1.0] * m.n, m.bnd)
    lrow, lcol = list(lib[0]), list(lib[1])
    require(all(sorted(lcol[lrow[a]:lrow[a + 1]]) == sorted(col[row[a]:row[a + 1]].tolist()) for a in range(nc)),
            "coarse-library", "library connections %s %s | %s" % (lrow, lcol, say))


class Block:
    def __init__(self, n):
        self.data = np.zeros((n, 4))


def blocks(r, n):
    k = r.randint(1, 3)
    cut = sorted(r.randint(0, n) for _ in range(k - 1))
    return [Block(b - a) for a, b in zip([0] + cut, cut + [n])]


def visual(r, m):
    ids = [r.randrange(1 + m.n // 2) for _ in range(m.n)]
    used = sorted(set(ids))
    ids = [used.index(c) for c in ids]
    bl = blocks(r, m.n)
    data = np.array(ids) if r.random() < 0.7 else list(ids)
    mod_ = r.choice((None, 1, 2, 3, 7))
    shuffle = r.random() < 0.4
    got = ct.prepare_meshio_agglomeration_data(data, bl, modulo_renumbering=mod_, shuffle=shuffle)
    say = "ids=%s modulo=%s shuffle=%s blocks=%s" % (ids, mod_, shuffle, [len(b.data) for b in bl])
    flat = [int(x) for g in got for x in np.asarray(g)]
    what = "the given data is %s afterwards | %s" % (list(data), say)
    if isinstance(data, np.ndarray) and (shuffle or (mod_ or 0) > 1) and list(data) != ids and [int(x) for x in data] == flat:
        recognised("given-array-renumbered", what)
    else:
        require(list(data) == ids, "input-changed", what)
    require(len(got) == len(bl) and all(len(g) == len(b.data) for g, b in zip(got, bl)), "blocks", "%s | %s" % (got, say))
    mm = mod_ if mod_ is not None and mod_ > 1 else None
    if not shuffle:
        require(flat == [i % mm if mm else i for i in ids], "cell-data", "%s | %s" % (flat, say))
    else:
        # Cells of a coarse cell stay together; without modulo the numbers are a permutation
        ok = len(flat) == len(ids) and len({(a, b) for a, b in zip(ids, flat)}) == len(set(ids))
        if mm:
            ok = ok and all(0 <= x < mm for x in flat)
        else:
            ok = ok and sorted(set(flat)) == sorted(set(ids))
        require(ok, "cell-data-shuffled", "%s | %s" % (flat, say))
    count("cell_data")
    count("shuffled" if shuffle else "not_shuffled")
    # Lines of coarse cells
    nc = max(ids) + 1
    cells = list(range(nc))
    r.shuffle(cells)
    idx = [0]
    while idx[-1] < nc and r.random() < 0.8:
        idx.append(idx[-1] + r.randint(1, min(4, nc - idx[-1])))
    cells = cells[:idx[-1]]
    default = r.choice((-1, -5, 0, 3, 100))
    shuffle = r.random() < 0.3
    mod_ = r.choice((None, None, 2, 3))
    got = ct.assign_anisotropic_line_data_to_cells(give(r, idx, True) if len(idx) > 1 else idx, give(r, cells, True), give(r, ids, True),
                                                   default_value=default, modulo_renumbering=mod_, shuffle=shuffle)
    line = {}
    for k in range(len(idx) - 1):
        for x in cells[idx[k]:idx[k + 1]]:
            line[x] = k
    say = "idx=%s cells=%s ids=%s default=%d modulo=%s shuffle=%s: %s" % (idx, cells, ids, default, mod_, shuffle, list(got))
    ok = len(got) == len(ids)
    zero = False
    for f in range(len(ids)):
        on = ids[f] in line
        v = int(got[f]) if ok else 0
        if not on:
            ok = ok and v == default
        elif default < 0:
            ok = ok and v >= 0
        elif default == 0:
            ok = ok and v >= 1
        else:
            ok = ok and v <= 0
            zero = zero or v == 0
    if ok and zero:
        recognised("line-zero-with-positive-default", say)
    else:
        require(ok, "line-range", say)
    if ok and mod_ is None:
        pairs = {(line[ids[f]], int(got[f])) for f in range(len(ids)) if ids[f] in line}
        require(len(pairs) == len({a for a, _ in pairs}) == len({b for _, b in pairs}), "line-number", say)
    if ok and not shuffle:
        def number(k):
            k = k % mod_ if mod_ else k
            return k if default < 0 else k + 1 if default == 0 else None
        require(all(number(line[ids[f]]) in (None, int(got[f])) for f in range(len(ids)) if ids[f] in line), "line-value", say)
    count("lines", len(idx) - 1)


def dump(r, m):
    prec = r.choice((15, 15, 6, 3))
    fd, name = tempfile.mkstemp()
    os.close(fd)
    try:
        ct.dump_graph(name, give(r, m.row, True), give(r, m.col, True), give(r, m.val), give(r, m.vol), give(r, m.bnd, True),
                      give(r, m.cen), precision=prec)
        lines = open(name).read().split("\n")
    finally:
        os.remove(name)
    num = [[float(x) for x in ln.split(",") if x] for ln in lines]
    say = "precision %d, file %s | %s" % (prec, lines, desc(m))
    if not require(len(num) == 8 and num[0] == [m.dim] and num[7] == [], "dump", say):
        return

    def same(a, b):
        return len(a) == len(b) and all(abs(x - y) <= 0.51 * 10.0 ** -prec + 1e-14 * abs(y) for x, y in zip(a, b))
    flat = [x for c in m.cen for x in c]
    require(num[1] == m.row and num[2] == m.col and same(num[3], m.val) and same(num[4], m.vol) and num[5] == m.bnd
            and same(num[6], flat), "dump", say)
    count("dumps")


def describe():
    for tab, enum in ((ct.AR_DESCRIPTIONS, CoMMA.AR), (ct.NEIGHBOURHOOD_DESCRIPTIONS, CoMMA.Neighbourhood),
                      (ct.SEED_ORDERING_DESCRIPTIONS, CoMMA.SeedsPool), (ct.CELL_COUPLING_DESCRIPTIONS, CoMMA.CellCoupling)):
        have = set(enum.__members__.values())
        require(all(isinstance(tab.get(e), str) and tab[e] for e in have), "descriptions",
                "%s: %s" % (enum, [e for e in have if e not in tab]))


prog = None
if opt["--progress"]:
    prog = os.open(opt["--progress"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
for case in range(int(opt["--from"]), int(opt["--to"])):
    if prog is not None:
        os.pwrite(prog, ("%-31d\n" % case).encode(), 0)
    h = hashlib.sha256(b"%d-130-%d" % (seed, case)).digest()
    r = random.Random(int.from_bytes(h[:8], "little"))
    m = gen_mesh(r)
    try:
        fn = (distance, coarse, visual, dump)[case % 4]
        fn(r, m)
        if case == 0:
            describe()
        count("cases")
        if m.n > 1:
            distinct.add(hashlib.sha256(repr((case % 4, m.row, m.col, m.val, m.vol)).encode()).hexdigest()[:16])
        if m.n in (3, 4) and len(samples) < 2:
            samples.append("%s | %s" % (fn.__name__, desc(m)))
    except Exception as e:  # noqa: B902
        import traceback
        fr = traceback.extract_tb(e.__traceback__)[-1]
        require(False, "exception:%s" % type(e).__name__, "%s in %s | %s" % (e, fr, desc(m)))
    if n_viol >= 5:
        break
out.write(json.dumps({"type": "end", "counters": cnt, "samples": samples, "distinct": sorted(distinct)}) + "\n")
out.close()
