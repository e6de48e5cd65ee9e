"""Seeded generators of call scripts (lists of sessions, each a list of calls).

Coordinates are lattice integers; see harness/src/main.rs for the mapping to
floats.  All random choices come from the Random instance passed in."""
import random

DIMS32 = [1, 2, 3, 4, 6]


def pick_type(r, maxd=10):
    if r.random() < 0.35:
        return "f32", r.choice([d for d in DIMS32 if d <= maxd])
    return "f64", r.choice([d for d in [1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 5, 6, 7, 8, 10, 16, 65] if d <= maxd])


def pick_n(r, big=60):
    return r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, big])


def pick_leaf(r, n):
    return max(0, r.choice([0, 1, 1, 2, 2, 3, 4, 8, n // 2, n - 1, n, n + 1, 100]))


def coords(r, n, d, lo, hi, shape=None):
    """n points with coordinates in [lo, hi]"""
    shape = shape or r.choice(["uni", "uni", "uni", "few", "equal", "axis", "diag", "clusters",
                               "grid", "sorted", "reversed", "outlier", "anti", "shell"])
    w = hi - lo
    u = lambda a=lo, b=hi: r.randint(a, b)
    if shape == "few":
        vals = [[u() for _ in range(r.randint(1, 3))] for _ in range(d)]
        return [[r.choice(vals[j]) for j in range(d)] for _ in range(n)]
    if shape == "equal":
        p = [u() for _ in range(d)]
        return [list(p) for _ in range(n)]
    if shape == "axis":
        keep = r.randrange(d)
        p = [u() for _ in range(d)]
        return [[u() if j == keep else p[j] for j in range(d)] for _ in range(n)]
    if shape == "diag":
        return [[t] * d for t in (u() for _ in range(n))]
    if shape == "anti":
        return [[(t if j % 2 == 0 else lo + hi - t) for j in range(d)] for t in (u() for _ in range(n))]
    if shape == "clusters":
        c = [[u() for _ in range(d)] for _ in range(2)]
        s = max(1, w // 20)
        cl = lambda x: min(hi, max(lo, x))
        return [[cl(x + r.randint(-s, s)) for x in r.choice(c)] for _ in range(n)]
    if shape == "grid":
        side = max(2, int(round(n ** (1.0 / d))))
        step = max(1, w // side)
        out = []
        for i in range(n):
            p, x = [], i
            for _ in range(d):
                p.append(min(hi, lo + (x % side) * step))
                x //= side
            out.append(p)
        return out
    if shape in ("sorted", "reversed"):
        pts = sorted([u() for _ in range(d)] for _ in range(n))
        return pts if shape == "sorted" else pts[::-1]
    if shape == "outlier":
        pts = [[min(hi, lo + r.randint(0, max(1, w // 50))) for _ in range(d)] for _ in range(n)]
        pts[r.randrange(n)] = [hi] * d
        return pts
    if shape == "shell":
        out = []
        for _ in range(n):
            p = [u() for _ in range(d)]
            p[r.randrange(d)] = r.choice([lo, hi])
            out.append(p)
        return out
    return [[u() for _ in range(d)] for _ in range(n)]


def span(r, d):
    """coordinate range; kept small enough that squared distances stay exact"""
    # (single-precision distances identify squared distances below 2^22)
    top = {1: 1000, 2: 700, 3: 580, 4: 500}.get(d, 400)
    w = r.choice([1, 2, 3, 5, 9, 20, 64, 200, top])
    return w


def queries(r, pts, lo, hi, m, inside=False):
    d = len(pts[0])
    w = max(1, hi - lo)
    out = []
    for _ in range(m):
        c = r.randrange(7)
        if c == 0:
            q = list(r.choice(pts))
        elif c == 1:
            a, b = r.choice(pts), r.choice(pts)
            q = [(x + y) // 2 for x, y in zip(a, b)]
        elif c == 2:
            a, b = r.choice(pts), r.choice(pts)
            q = [r.choice([x, y]) for x, y in zip(a, b)]
        elif c == 3:
            q = [r.choice([lo, hi]) for _ in range(d)]
        elif c == 4 and not inside:
            q = [r.choice([lo - w, hi + w, r.randint(lo - w, hi + w)]) for _ in range(d)]
        elif c == 5:
            q = [x + r.choice([-1, 0, 1]) for x in r.choice(pts)]
        else:
            q = [r.randint(lo, hi) for _ in range(d)]
        if inside:
            q = [min(hi, max(lo, x)) for x in q]
        out.append(q)
    return out


def ks(r, n, m=4):
    c = [1, 2, 3, n // 2, n - 1, n, r.randint(1, n)]
    return [max(1, min(n, r.choice(c))) for _ in range(m)]


def psl(r):
    return r.choice([-1, -1, -1, 0, 1, 2, 3, 5])


def frame(r, ty, w):
    """scale and offset; w bounds the absolute lattice coordinates"""
    f = {}
    if r.random() < 0.3:
        f["sc"] = r.choice([-3, 3, -10, 10, 20, -20] if ty == "f32" else [-3, 3, -60, 60, 300, -300])
    if r.random() < 0.15:
        f["nz"] = r.choice([1, 2, 2])
    return f


def new(r, s, ty, d, pts, leaf=None, **kw):
    n = len(pts)
    e = {"op": "new", "s": s, "ty": ty, "dim": d, "leaf": pick_leaf(r, n) if leaf is None else leaf,
         "pts": pts, "psl": psl(r)}
    e.update(kw)
    return e


def shift_range(r, w):
    """lower bound of coordinates: positive, mixed and all-negative data"""
    return r.choice([0, 0, -w // 2, -w - 5, 7])


def plain_tree(r, s=0, big=60, maxd=65, n=None):
    ty, d = pick_type(r, maxd)
    n = n or pick_n(r, big)
    w = span(r, d)
    lo = shift_range(r, w)
    hi = lo + w
    pts = coords(r, n, d, lo, hi)
    e = new(r, s, ty, d, pts)
    e.update(frame(r, ty, w))
    return e, pts, lo, hi


def box_tree(r, s=0, big=40, maxd=5, n=None):
    """data inside a box [0, L]; lengths differ per axis"""
    ty, d = pick_type(r, maxd)
    n = n or r.choice([1, 2, 3, 4, 5, 8, 9, 16, 17, 24, 33, big])
    if d > 4:
        n = min(n, 12)
    ws = [min(340, span(r, d)) for _ in range(d)]
    if r.random() < 0.4:
        ws = [ws[0]] * d
    pts = coords(r, n, d, 0, max(ws))
    pts = [[min(x, ws[j]) if r.random() < 0.8 else x % (ws[j] + 1) for j, x in enumerate(p)] for p in pts]
    L = [w + r.choice([0, 0, 0, 1, w]) for w in ws]
    e = new(r, s, ty, d, pts)
    e.update(frame(r, ty, max(ws)))
    return e, {"op": "box", "s": s, "L": L}, pts, L


def high_box(r, s=0):
    """few points, but an axis for each of six to ten binary choices of image"""
    while True:
        e, b, pts, L = box_tree(r, s, 5, 10, r.choice([1, 2, 3, 5]))
        if len(L) > 5:
            return e, b, pts, L


def box_queries(r, pts, L, m):
    d = len(L)
    out = []
    for _ in range(m):
        c = r.randrange(6)
        if c == 0:
            q = [r.choice([0, l, l // 2, (l + 1) // 2]) for l in L]
        elif c == 1:
            q = [r.choice([0, l]) for l in L]
        elif c == 2:
            q = list(r.choice(pts))
        elif c == 3:
            q = [r.choice([r.randint(0, max(0, l // 10)), r.randint(l - l // 10, l)]) for l in L]
        elif c == 4:
            p = r.choice(pts)
            q = [(x + l // 2) % (l + 1) if l >= 0 else 0 for x, l in zip(p, L)]
        else:
            q = [r.randint(0, l) for l in L]
        out.append(q)
    return out


# --------------------------------------------------------------------------
def c01(r, count):
    out = []
    for _ in range(count):
        e, pts, lo, hi = plain_tree(r)
        out.append([e] + [{"op": "q1", "s": 0, "q": q} for q in queries(r, pts, lo, hi, 8)])
    return out


def c02(r, count):
    out = []
    for _ in range(count):
        e, pts, lo, hi = plain_tree(r)
        ses = [e]
        for q in queries(r, pts, lo, hi, 4):
            for k in ks(r, len(pts), 2):
                ses.append({"op": "qk", "s": 0, "q": q, "k": k})
        out.append(ses)
    return out


def c03(r, count):
    out = []
    for _ in range(count):
        e, b, pts, L = box_tree(r, maxd=10)
        out.append([e, b] + [{"op": "q1", "s": 0, "q": q} for q in box_queries(r, pts, L, 8)])
    return out


def c04(r, count):
    out = []
    for _ in range(count):
        high = r.random() < 0.12
        e, b, pts, L = high_box(r) if high else box_tree(r)
        ses = [e, b]
        for q in box_queries(r, pts, L, 2 if high else 4):
            for k in ks(r, len(pts), 2):
                ses.append({"op": "qk", "s": 0, "q": q, "k": k})
        out.append(ses)
    return out


# --------------------------------------------------------------------------
# larger trees, still checked by full comparison in the specification
MIDS = [100, 128, 129, 200, 255, 257, 500, 777, 1000, 1024, 1500, 2500]


def mid_tree(r, s=0, maxd=16, top=2500, n=None):
    n = n or r.choice([m for m in MIDS if m <= top])
    ty, d = pick_type(r, maxd)
    w = r.choice([9, 64, 200, {1: 1000, 2: 700, 3: 580, 4: 500}.get(d, 400)])
    lo = shift_range(r, w)
    pts = coords(r, n, d, lo, lo + w)
    leaf = r.choice([0, 1, 2, 3, 5, 8, 10, 16, 17, 31, 32, 33, 64, 100, n // 3, n // 2, n - 1, n])
    e = new(r, s, ty, d, pts, leaf=leaf)
    e.update(frame(r, ty, w))
    return e, pts, lo, lo + w


def mid_box(r, s=0, maxd=3, n=None):
    n = n or r.choice([64, 100, 200, 257, 500, 1000])
    ty, d = pick_type(r, maxd)
    ws = [r.choice([20, 64, 200, 600]) for _ in range(d)]
    pts = [[min(x, ws[j]) for j, x in enumerate(p)] for p in coords(r, n, d, 0, max(ws))]
    L = [w + r.choice([0, 0, 1]) for w in ws]
    e = new(r, s, ty, d, pts, leaf=r.choice([1, 2, 4, 8, 16, 32, 64, 100, n]))
    e.update(frame(r, ty, max(ws)))
    return e, {"op": "box", "s": s, "L": L}, pts, L


def mids(r, count, kind):
    """kind: 1 nearest, k several, p1/pk periodic"""
    out = []
    for _ in range(count):
        if kind[0] == "p":
            e, b, pts, L = mid_box(r)
            ses, qs = [e, b], box_queries(r, pts, L, 6)
        else:
            e, pts, lo, hi = mid_tree(r)
            ses, qs = [e], queries(r, pts, lo, hi, 8)
        for q in qs:
            if kind in ("1", "p1"):
                ses.append({"op": "q1", "s": 0, "q": q})
            else:
                n = len(pts)
                k = r.choice([1, 2, 3, 5, 8, 10, 16, 17, 32, 50, 64, 100, n // 2 if n < 300 else 33,
                              n if n < 300 else 65])
                ses.append({"op": "qk", "s": 0, "q": q, "k": min(k, n)})
        out.append(ses)
    return out


HUGE = [-1, -1, -2, -3, -4, -5, -6]         # see usize_of in the harness
PYHUGE = [1900000000 + x for x in range(7)]  # see size_of in pyexec


def any_k(r, n):
    return r.choice([0, 1, 1, 2, 3, max(1, n // 2), max(0, n - 1), n, n, n + 1, n + 7, 2 * n + 3, r.choice(HUGE)])


def batch_qs(r, pts, lo, hi, m, box=None):
    if m == 0:
        return []
    if box:
        qs = box_queries(r, pts, box, min(m, 40))
    else:
        qs = queries(r, pts, lo, hi, min(m, 40))
    while len(qs) < m:
        qs.append(list(r.choice(qs)) if r.random() < 0.3 else
                  [r.randint(lo, hi) if not box else r.randint(0, box[j]) for j in range(len(pts[0]))])
    if r.random() < 0.3:
        # neighbours in the list that are equal, or nearly
        for i in range(1, m):
            if r.random() < 0.3:
                j = r.randrange(len(qs[i]))
                x = qs[i][j]
                qs[i] = list(qs[i - 1])
                if r.random() < 0.5:
                    qs[i][j] = x
    return qs


NQS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65]
POOLS = [0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 12, 33, 70]     # 0: called from a thread of no pool
TILEPOOLS = [0, 2, 3, 4, 8, 9, 16, 32, 65, 100, 150, 200]
KINDS = ["nan", "inf", "-inf"]


def spoil(r, rows, d, m=1):
    """places of invalid components"""
    out = []
    for _ in range(m):
        row = r.choice([0, rows - 1, rows // 2, r.randrange(rows)])
        out.append([r.randint(1, d), r.choice(KINDS), row])
    return [list(x) for x in {(a, b): [a, k, b] for a, k, b in out}.values()]


def tree_of(r, s, periodic, big=40, maxd=4, n=None):
    """(calls, pts, lo, hi, box)"""
    if periodic:
        e, b, pts, L = box_tree(r, s, big, maxd, n)
        return [e, b], pts, 0, max(L), L
    e, pts, lo, hi = plain_tree(r, s, big, maxd, n)
    return [e], pts, lo, hi, None


def c05(r, count, bigq=()):
    out = []
    for _ in range(count):
        per = r.random() < 0.45
        if per and r.random() < 0.1:
            e, b, pts, L = high_box(r)
            calls, lo, hi = [e, b], 0, max(L)
        else:
            calls, pts, lo, hi, L = tree_of(r, 0, per, 33, 3 if per else 5)
        ses, d = list(calls), len(pts[0])
        for _ in range(4):
            m = r.choice(NQS)
            qs = batch_qs(r, pts, lo, hi, m, L)
            e = {"op": "batch", "s": 0, "qs": qs, "k": any_k(r, len(pts)), "api": r.choice(["par", "with"]),
                 "pool": r.choice(POOLS)}
            ses.append(e)
            if m and r.random() < 0.25:
                f = dict(e)
                f["bad"] = spoil(r, m, d, r.choice([1, 1, 2]))
                f["pool"] = r.choice(POOLS)
                ses.append(f)
                if r.random() < 0.7:
                    ses.append(dict(e, api=r.choice(["par", "with"])))
        if r.random() < 0.25:
            # batches from the tasks of a pool
            ses.append({"op": "conc", "nest": r.choice([1, 2, 4, 8]), "thr": [
                [{"op": "batch", "s": 0, "qs": batch_qs(r, pts, lo, hi, r.choice([1, 3, 9, 17]), L), "k": r.randint(1, len(pts)),
                  "api": r.choice(["par", "with"]), "pool": 0} for _ in range(2)] for _ in range(r.choice([2, 5]))]})
        # the same queries on their own
        q = r.choice(batch_qs(r, pts, lo, hi, 3, L))
        ses.append({"op": "qk", "s": 0, "q": q, "k": min(5, len(pts))})
        out.append(ses)
    for m in bigq:
        per = r.random() < 0.5
        n = r.choice([3, 5, 9, 17, 30])
        calls, pts, lo, hi, L = tree_of(r, 0, per, 33, 2, n)
        for api in ("par", "with"):
            k = r.choice([1, 2, 3, n])
            calls.append({"op": "batch", "s": 0, "qs": batch_qs(r, pts, lo, hi, m, L), "k": k, "api": api,
                          "pool": r.choice(POOLS)})
        out.append(calls)
    return out


def tiled(r, specs, op="batch"):
    """long lists of queries, made of copies of a short one: (queries, tile, pool, points)"""
    out = []
    for m, tile, pool, n in specs:
        if r.random() < 0.4:
            e, b, pts, L = mid_box(r, maxd=3, n=n)
            ses, lo, hi = [e, b], 0, max(L)
        else:
            e, pts, lo, hi = mid_tree(r, maxd=3, n=n)
            ses, L = [e], None
        qs = batch_qs(r, pts, lo, hi, m, L)
        k = r.choice([1, 2, 3, 5, 8, 17, min(n, 40)])
        if m * tile > 65536:
            k = min(k, 3)
        for api in (("par", "with", "with") if op == "batch" else (0, 1)):
            e = {"op": op, "s": 0, "qs": qs, "k": min(k, n), "tile": tile, "pool": pool}
            if op == "batch":
                e["api"] = api
            else:
                e["ax"] = r.randrange(len(pts[0]))
            ses.append(e)
        bad = dict(ses[-1], bad=spoil(r, m, len(pts[0])))
        ses += [bad, ses[-1]]
        out.append(ses)
    return out


def c05mid(r, count):
    """batches on trees with several levels"""
    out = []
    for i in range(count):
        if i % 2:
            e, b, pts, L = mid_box(r, maxd=3)
            ses, lo, hi = [e, b], 0, max(L)
        else:
            e, pts, lo, hi = mid_tree(r, maxd=4, top=1000)
            ses, L = [e], None
        n = len(pts)
        for api in ("par", "with", "par", "with"):
            ses.append({"op": "batch", "s": 0, "qs": batch_qs(r, pts, lo, hi, r.choice([3, 8, 17]), L),
                        "k": r.choice([1, 2, 5, 8, 10, 16, 20, 33]), "api": api, "pool": r.choice(POOLS)})
        out.append(ses)
    return out


def c06(r, count, mid=0):
    out = []
    for i in range(count + mid):
        per = r.random() < 0.45
        if i >= count:
            if per:
                e, b, pts, L = mid_box(r, maxd=3, n=r.choice([64, 130, 257]))
                ses, lo, hi = [e, b], 0, max(L)
            else:
                e, pts, lo, hi = mid_tree(r, maxd=5, top=500)
                ses, L = [e], None
        else:
            if per and r.random() < 0.2:
                e, b, pts, L = high_box(r)
                calls, lo, hi = [e, b], 0, max(L)
            else:
                calls, pts, lo, hi, L = tree_of(r, 0, per, 24, 4 if per else 65)
            ses = list(calls)
        d, n = len(pts[0]), len(pts)
        for _ in range(3):
            m = r.choice([1, 2, 3, 5, 8, 9, 17] if i < count else [2, 5])
            if i < count and r.random() < 0.1:
                m = 0
            e = {"op": "axis", "s": 0, "qs": batch_qs(r, pts, lo, hi, m, L),
                 "k": any_k(r, n) if i < count else r.choice([1, 2, 5, 10, 17]),
                 "ax": r.randrange(d), "pool": r.choice(POOLS)}
            ses.append(e)
            x = r.random()
            if x < 0.12:
                ses.append(dict(e, ax=r.choice([d, d + 1, r.choice(HUGE)])))
            elif x < 0.25 and m:
                ses.append(dict(e, bad=spoil(r, m, d)))
            elif x < 0.3 and m:
                ses.append(dict(e, bad=spoil(r, m, d), ax=r.choice([d, -1])))
        out.append(ses)
    return out


def all_leaves(n):
    return sorted({0, 1, 2, 3, n // 2, max(0, n - 1), n, n + 1, -1})


def c07(r, count, mid=0):
    out = []
    for i in range(count):
        ty, d = pick_type(r)
        n = pick_n(r)
        w = span(r, d)
        lo = shift_range(r, w)
        pts = coords(r, n, d, lo, lo + w)
        f = frame(r, ty, w)
        ses = []
        for leaf in r.sample(all_leaves(n), min(3, len(all_leaves(n)))):
            e = new(r, 0, ty, d, pts, leaf=leaf, psl=r.choice([-1, -1, 0, 2]))
            e.update(f)
            ses += [e, {"op": "dump", "s": 0}]
        out.append(ses)
    for i in range(mid):
        e, pts, lo, hi = mid_tree(r)
        e["psl"] = r.choice([-1, -1, -1, 0, 3])
        out.append([e, {"op": "dump", "s": 0}])
    return out


def c08(r, count, mid=0, rep=0):
    out = []
    levels = [0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 12, 40, -2]
    for i in range(count):
        ty, d = pick_type(r)
        n = pick_n(r, 64)
        w = span(r, d)
        lo = shift_range(r, w)
        pts = coords(r, n, d, lo, lo + w)
        f = frame(r, ty, w)
        ses = []
        for _ in range(2):
            e = new(r, 0, ty, d, pts, leaf=r.choice([0, 1, 1, 2, 3, n // 4, n, r.choice(HUGE)]), psl=r.choice(levels))
            e.update(f)
            ses += [e, {"op": "dump", "s": 0}]
            for q in queries(r, pts, lo, lo + w, 2):
                ses.append({"op": "q1", "s": 0, "q": q})
                ses.append({"op": "qk", "s": 0, "q": q, "k": r.randint(1, n)})
        out.append(ses)
    for i in range(mid):
        e, pts, lo, hi = mid_tree(r, maxd=4, top=1500)
        e["psl"] = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
        e["leaf"] = r.choice([1, 1, 2, 4, 8, 32])
        ses = [e, {"op": "dump", "s": 0}]
        for q in queries(r, pts, lo, hi, 3):
            ses.append({"op": "q1", "s": 0, "q": q})
            ses.append({"op": "qk", "s": 0, "q": q, "k": 7})
        out.append(ses)
    for i in range(rep):
        # many schedules of one build
        n = r.choice([60, 130, 256])
        ty, d = pick_type(r, 3)
        pts = coords(r, n, d, 0, 500)
        psl = r.choice([2, 3, 4, 6, 8])
        leaf = r.choice([0, 1, 2, 4])
        ses = []
        for _ in range(8):
            ses += [new(r, 0, ty, d, pts, leaf=leaf, psl=psl), {"op": "dump", "s": 0}]
        out.append(ses)
    return out


# ---- big data by formula: coordinate j of point i is
#      s * (((a * (i mod m) + b) mod m) div q) + c
def big_gen(r, n, d, shape):
    M = 19991  # a*m stays below 2^31
    cols = []
    m = {"dups": 9973, "few": 1009}.get(shape, 0) or 0
    if shape == "perm":
        m = n + 1 if n < 46000 else 0
    g = {"n": n, "m": 0, "a": [], "b": [], "q": [], "s": [], "c": []}
    if shape == "equal":
        g.update(m=1, a=[0] * d, b=[0] * d, q=[1] * d, s=[0] * d, c=[r.randint(-5, 5) for _ in range(d)])
    elif shape == "sorted":
        g.update(m=n, a=[1] * d, b=[0] * d, q=[r.choice([7, 11, 64]) * max(1, n // 100000) for _ in range(d)],
                 s=[1] * d, c=[0] * d)
    elif shape == "reversed":
        g.update(m=n, a=[1] * d, b=[0] * d, q=[r.choice([7, 11, 64]) * max(1, n // 100000) for _ in range(d)],
                 s=[-1] * d, c=[0] * d)
    elif shape == "outlier":
        # all but the last point at one place
        g.update(m=n, a=[1] * d, b=[r.choice([0, 0, 1]) for _ in range(d)], q=[n - 1] * d,
                 s=[r.choice([-900, 900]) for _ in range(d)], c=[0] * d)
    elif shape == "two":
        g.update(m=2, a=[1] * d, b=[0] * d, q=[1] * d, s=[r.choice([-3, 500]) for _ in range(d)], c=[0] * d)
    elif shape == "blocks":
        # few distinct values in long runs
        g.update(m=n, a=[1] * d, b=[r.randrange(n) for _ in range(d)], q=[n // r.choice([3, 5, 16]) for _ in range(d)],
                 s=[r.choice([-7, 1, 40]) for _ in range(d)], c=[0] * d)
    elif shape == "mostly":
        # one axis nearly constant
        m = r.choice([9973, 15013])
        g.update(m=m, a=[r.randrange(1, m) for _ in range(d)], b=[r.randrange(m) for _ in range(d)],
                 q=[m - r.choice([1, 2, 40]) if j == 0 else 17 for j in range(d)], s=[1] * d, c=[0] * d)
    elif shape == "all":
        # no two points alike (up to 100,003 of them)
        m = 100003
        g.update(m=m, a=[r.randrange(1, 21400) for _ in range(d)], b=[r.randrange(m) for _ in range(d)],
                 q=[r.choice([47, 61, 83]) if d > 1 else 7] * d, s=[r.choice([-1, 1]) for _ in range(d)],
                 c=[r.choice([0, -300, 50]) for _ in range(d)])
    else:
        m = {"dups": r.choice([1009, 4001]), "few": r.choice([3, 17, 97])}.get(shape, r.choice([15013, 19991]))
        q = 1 if m < 2000 else r.choice([11, 17, 29])
        g.update(m=m, a=[r.randrange(1, m) for _ in range(d)], b=[r.randrange(m) for _ in range(d)],
                 q=[q] * d, s=[r.choice([-1, 1]) for _ in range(d)], c=[r.choice([0, -300, 50]) for _ in range(d)])
    return g


BIG_SHAPES = ["uni", "all", "dups", "few", "equal", "sorted", "reversed", "outlier", "two", "blocks", "mostly"]


def gen_point(g, i):
    return [g["s"][j] * (((g["a"][j] * (i % g["m"]) + g["b"][j]) % g["m"]) // g["q"][j]) + g["c"][j]
            for j in range(len(g["a"]))]


def gen_lohi(g):
    ps = [gen_point(g, i) for i in range(0, g["n"], max(1, g["n"] // 997))] + [gen_point(g, g["n"] - 1)]
    return min(min(p) for p in ps), max(max(p) for p in ps)


def moms_calls(r, sizes, shapes):
    out = []
    for n in sizes:
        for sh in shapes:
            d = r.choice([1, 2, 3])
            g = big_gen(r, n, d, sh)
            c = r.choice([0, 0, 1, 2, 3, 5, 7, 16, 100, 999, 1000, 33333, 50000, n - 1, n, n + 1])
            if 0 < c < 5 and n > 150000:
                c = 0
            out.append([{"op": "moms", "ty": r.choice(["f64", "f32" if d > 1 else "f64"]), "dim": d, "gen": g,
                         "ax": r.randrange(d), "chunk": c, "pool": r.choice(POOLS)}])
    return out


def moms_small(r, count):
    out = []
    for _ in range(count):
        ty, d = pick_type(r)
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 33, 100])
        w = span(r, d)
        out.append([{"op": "moms", "ty": ty, "dim": d, "pts": coords(r, n, d, -w, w), "ax": r.randrange(d),
                     "chunk": r.choice([0, 1, 5, n])}])
    return out


def big_boxes(r, specs, qn=2):
    """periodic trees of many points; specs: (n, shape, psl, leaf, d)"""
    out = []
    for n, sh, p, leaf, d in specs:
        g = big_gen(r, n, d, sh)
        g["s"], g["c"] = [abs(x) for x in g["s"]], [0] * d
        lo, hi = gen_lohi(g)
        L = [hi * 2 + 5 if sh == "few" else (hi + r.choice([0, 1, 7])) for _ in range(d)]
        # the sampled maximum is not the maximum
        L = [max(l, g["s"][j] * ((g["m"] - 1) // g["q"][j])) for j, l in enumerate(L)]
        ses = [{"op": "new", "s": 0, "ty": "f64", "dim": d, "leaf": leaf, "psl": p, "gen": g,
                "pool": r.choice(POOLS)}, {"op": "box", "s": 0, "L": L}]
        pts = [gen_point(g, r.randrange(n)) for _ in range(20)]
        for q in box_queries(r, pts, L, qn):
            ses.append({"op": "q1", "s": 0, "q": q})
            ses.append({"op": "qk", "s": 0, "q": q, "k": r.choice([1, 3, 10, 40])})
        ses.append({"op": "batch", "s": 0, "qs": box_queries(r, pts, L, 2), "k": r.choice([2, 8]),
                    "api": r.choice(["par", "with"]), "pool": r.choice(POOLS)})
        ses.append({"op": "axis", "s": 0, "qs": box_queries(r, pts, L, 1), "k": r.choice([2, 8]),
                    "ax": r.randrange(d), "pool": r.choice(POOLS)})
        out.append(ses)
    return out


def big_trees(r, specs, qn=2, dump=True):
    """specs: (n, shape, psl, leaf, d)"""
    out = []
    for n, sh, p, leaf, d in specs:
        g = big_gen(r, n, d, sh)
        lo, hi = gen_lohi(g)
        ses = [{"op": "new", "s": 0, "ty": r.choice(["f64", "f32"]) if d in (2, 3) and hi - lo < 500 else "f64",
                "dim": d, "leaf": leaf, "psl": p, "gen": g, "pool": r.choice(POOLS)}]
        if dump:
            ses.append({"op": "dump", "s": 0})
        for _ in range(qn):
            q = gen_point(g, r.randrange(n)) if r.random() < 0.5 else [r.randint(lo, hi) for _ in range(d)]
            ses.append({"op": "q1", "s": 0, "q": q})
            ses.append({"op": "qk", "s": 0, "q": [r.randint(lo - 2, hi + 2) for _ in range(d)],
                        "k": r.choice([1, 3, 10])})
        out.append(ses)
    return out


# --------------------------------------------------------------------------
def many_k(r, n, leaf, d=2):
    """more neighbours than fit in 16 bits"""
    g = big_gen(r, n, d, "uni")
    e = {"op": "new", "s": 0, "ty": "f64", "dim": d, "leaf": leaf, "gen": g, "psl": -1}
    lo, hi = gen_lohi(g)
    q = [r.randint(lo, hi) for _ in range(d)]
    return [[e] + [{"op": "qk", "s": 0, "q": q, "k": k} for k in (r.choice([65536, 65537, 66001]), n, n + 3)]]


def big_leaf(r, n, ops, per=False):
    """more points in one leaf than fit in 16 bits, nearly all different; n is prime"""
    d = 2
    g = {"n": n, "m": n, "a": [r.randrange(2, 30000) for _ in range(d)], "b": [r.randrange(n) for _ in range(d)],
         "q": [n // 20000 + 1] * d, "s": [1] * d, "c": [0] * d}
    lo, hi = gen_lohi(g)
    hi += 20
    ses = [{"op": "new", "s": 0, "ty": "f64", "dim": d, "leaf": r.choice([n, n - 1, n + 1] + HUGE), "gen": g,
            "psl": r.choice([-1, 0, 2])}]
    if per:
        ses.append({"op": "box", "s": 0, "L": [hi, hi + 3]})
    for op in ops:
        q = gen_point(g, r.choice([n - 1, n - 2, 65536, r.randrange(65530, n)]))
        q = [max(0, x + r.choice([-1, 0, 0, 1])) for x in q]
        e = {"op": op, "s": 0, "k": r.choice([1, 2, 3]), "q": q}
        if op == "q1":
            e.pop("k")
        if op in ("batch", "axis"):
            e.update(qs=[e.pop("q")], pool=r.choice([1, 2]))
            e.update({"api": r.choice(["par", "with"])} if op == "batch" else {"ax": r.randrange(d)})
        ses.append(e)
    return [ses]


def c10(r, count, sizes=(), par=True):
    """invalid components everywhere; valid calls in between"""
    out = []
    for i in range(count):
        ty, d = pick_type(r, 65)
        n = pick_n(r)
        w = span(r, d)
        lo = shift_range(r, w)
        pts = coords(r, n, d, lo, lo + w)
        f = frame(r, ty, w)
        e = new(r, 0, ty, d, pts)
        e.update(f)
        ses = []
        for _ in range(3):
            b = dict(e, psl=psl(r), leaf=pick_leaf(r, n))
            b["bad"] = spoil(r, n, d, r.choice([1, 1, 1, 2, 5]))
            ses.append(b)
        if r.random() < 0.2:
            ses.append({"op": "new", "s": 0, "ty": ty, "dim": d, "leaf": 3, "pts": [], "psl": psl(r)})
        ses.append(e)
        for _ in range(5):
            q = queries(r, pts, lo, lo + w, 1)[0]
            op = r.choice(["q1", "qk", "batch", "axis", "batch"] if par else ["q1", "qk"])
            good, badc = any_call(r, op, 0, pts, lo, lo + w, None)
            ses += r.sample([badc, good, badc], 3) if r.random() < 0.5 else [badc, good]
        out.append(ses)
    # long data: validation runs in pieces
    for n in sizes:
        d = r.choice([1, 2, 3])
        g = big_gen(r, n, d, "uni")
        for row in [0, n - 1, n - 2, n // 2, n - r.randint(2, max(2, n // 50)), r.randrange(n)]:
            out.append([{"op": "new", "s": 0, "ty": "f64", "dim": d, "leaf": r.choice([8, 32, n]), "gen": g,
                         "psl": r.choice([-1, -1, 2]), "bad": [[r.randint(1, d), r.choice(KINDS), row]],
                         "pool": r.choice(POOLS)}])
    return out


def any_call(r, op, s, pts, lo, hi, L):
    """a valid call and the same call with invalid components"""
    d, n = len(pts[0]), len(pts)
    if op in ("q1", "qk"):
        q = (box_queries(r, pts, L, 1) if L else queries(r, pts, lo, hi, 1))[0]
        e = {"op": op, "s": s, "q": q}
        if op == "qk":
            e["k"] = any_k(r, n)
        rows = 1
    else:
        rows = r.choice([1, 2, 3, 5, 9, 17])
        e = {"op": op, "s": s, "qs": batch_qs(r, pts, lo, hi, rows, L), "k": any_k(r, n), "pool": r.choice(POOLS)}
        if op == "batch":
            e["api"] = r.choice(["par", "with"])
        else:
            e["ax"] = r.randrange(d)
    while work(e, n, d, L) > 150000 and (e["k"] > 1 or rows > 1):
        # what the specification has to look at grows with all three
        if e["k"] > 1 and (rows == 1 or r.random() < 0.5):
            e["k"] = max(1, min(e["k"], n) // 2)
        else:
            rows = max(1, rows // 2)
            e["qs"] = e["qs"][:rows]
    bad = dict(e, bad=spoil(r, rows, d, r.choice([1, 1, 2])))
    return e, bad


def work(e, n, d, L):
    k = e.get("k", 1)
    k = n if k < 0 else min(k, n)
    if e["op"] == "q1":
        return 0
    return (len(e["qs"]) if "qs" in e else 1) * (n * (k + 1) * (2 ** d if L else 1) * 2 if e["op"] == "axis"
                                                 else n * d + 4 * k + (k * 2 ** d + k * k if L else 0))


def c11(r, count):
    out = []
    for i in range(count):
        ty, d = pick_type(r)
        n = pick_n(r, 40) if d < 5 else r.choice([1, 2, 5, 9])
        ws = [min(340, span(r, d)) for _ in range(d)]
        pts = [[min(x, ws[j]) for j, x in enumerate(p)] for p in coords(r, n, d, 0, max(ws))]
        neg = r.random() < 0.25
        if neg:
            for _ in range(r.choice([1, 1, 2, n])):
                j = r.randrange(d)
                pts[r.choice([0, n - 1, r.randrange(n)])][j] = -r.choice([1, 1, 2, ws[j]])
        f = frame(r, ty, max(ws))
        e = new(r, 0, ty, d, pts)
        e.update(f)
        mx = [max(p[j] for p in pts) for j in range(d)]
        ses = []
        for _ in range(3):
            ses.append(e)
            L = [max(0, m) + r.choice([0, 0, 0, 1, 3, m + 1 if m > 0 else 5]) for m in mx]
            box = {"op": "box", "s": 0, "L": L}
            c = r.random()
            ok = not neg
            if c < 0.3:
                j = r.randrange(d)
                L[j] = mx[j] - r.choice([1, 1, 2, max(1, mx[j])])
                if r.random() < 0.2:
                    L[j] = -abs(L[j])
                ok = False
            elif c < 0.55:
                box["bad"] = [[r.randint(1, d), r.choice(KINDS), 0]]
                if d > 1 and r.random() < 0.3:
                    a = r.randint(1, d)
                    if a != box["bad"][0][0]:
                        box["bad"].append([a, r.choice(KINDS), 0])
                ok = False
            ses.append(box)
            if ok:
                L2 = None
                if r.random() < 0.3:
                    L2 = [l + r.choice([0, 1, 2, l]) for l in L]
                    ses.append({"op": "box", "s": 0, "L": L2})
                for q in box_queries(r, pts, L2 or L, 3):
                    ses.append({"op": "q1", "s": 0, "q": q})
                    if d <= 5:
                        ses.append({"op": "qk", "s": 0, "q": q, "k": r.randint(1, min(n, 9))})
                if r.random() < 0.3:
                    ses.append({"op": "dump", "s": 0})
        if r.random() < 0.4:
            # without a box nothing wraps
            ses.append(e)
            lo, hi = min(0, min(map(min, pts))), max(ws)
            for q in queries(r, pts, lo, hi, 3):
                ses.append({"op": "q1", "s": 0, "q": q})
                ses.append({"op": "qk", "s": 0, "q": q, "k": r.randint(1, min(n, 9))})
        out.append(ses)
    return out


def c12(r, count, par=True):
    """extreme arguments: every call must return and have the right shape"""
    out = []
    for i in range(count):
        per = r.random() < 0.4
        n = r.choice([1, 1, 2, 2, 3, 4, 5, 9, 17, 33])
        calls, pts, lo, hi, L = tree_of(r, 0, per, 33, 8 if not per else 4, n)
        d = len(pts[0])
        ses = []
        for leaf in r.sample(all_leaves(n), 3):
            c = [dict(x) for x in calls]
            c[0]["leaf"] = leaf if leaf >= 0 else r.choice(HUGE)
            c[0]["psl"] = r.choice([-1, -1, 0, 1, 4, -2])
            ses += c
            ses.append({"op": "dump", "s": 0})
            for _ in range(4):
                op = r.choice(["q1", "qk", "batch", "axis"] if par else ["q1", "qk"])
                good, _ = any_call(r, op, 0, pts, lo, hi, L)
                if "k" in good:
                    good["k"] = r.choice([0, 1, n - 1, n, n + 1, n + 2, 65536, 1000000, r.choice(HUGE)])
                if "qs" in good and r.random() < 0.3:
                    good["qs"] = []
                ses.append(good)
        out.append(ses)
    return out


def deep(r, count):
    """queries that visit the whole of a big tree (run with the usual stack)"""
    out = []
    for i in range(count):
        n, leaf = r.choice([(60000, 1), (80000, 1), (60000, 0), (50000, 2)])
        g = big_gen(r, n, 2, "uni")
        g["s"], g["c"] = [1, 1], [0, 0]
        lo, hi = gen_lohi(g)
        q = [r.randint(0, hi), r.randint(0, hi)]
        new_ = {"op": "new", "s": 0, "ty": "f64", "dim": 2, "leaf": leaf, "gen": g, "psl": r.choice([-1, 2])}
        out.append([new_, {"op": "qk", "s": 0, "q": q, "k": n}])
        out.append([new_, {"op": "q1", "s": 0, "q": [hi // 2, -30000]}])
        out.append([new_, {"op": "batch", "s": 0, "qs": [q], "k": n, "api": "par", "pool": 2}])
        out.append([new_, {"op": "axis", "s": 0, "qs": [q], "k": 1, "ax": 0, "pool": 2}])
    return out


# --------------------------------------------------------------------------
def c13(r, count, par, axis):
    """one session per tree that uses every operation of the configuration"""
    out = []
    for i in range(count):
        per = r.random() < 0.45
        calls, pts, lo, hi, L = tree_of(r, 0, per, 24, 3)
        calls[0] = dict(calls[0])
        if (calls[0]["ty"], calls[0]["dim"]) not in [("f64", 1), ("f64", 2), ("f64", 3), ("f32", 2), ("f32", 3)]:
            calls[0]["ty"] = "f64"
            calls[0].pop("sc", None)
        n = len(pts)
        ses = list(calls)
        for q in (box_queries(r, pts, L, 4) if L else queries(r, pts, lo, hi, 4)):
            ses.append({"op": "q1", "s": 0, "q": q})
            ses.append({"op": "qk", "s": 0, "q": q, "k": r.choice([0, 1, 2, max(1, n // 2), n, n + 1])})
        if par:
            for op in ("batch", "axis") if axis else ("batch",):
                for _ in range(2):
                    good, bad = any_call(r, op, 0, pts, lo, hi, L)
                    ses += [good] + ([bad] if r.random() < 0.3 else [])
        if r.random() < 0.3:
            ses.append({"op": "dump", "s": 0})
        out.append(ses)
    return out


# --------------------------------------------------------------------------
def c14(r, count, par=True):
    """long histories on several trees, with concurrent phases"""
    out = []
    for _ in range(count):
        slots, ses = {}, []

        def mk(s):
            per = r.random() < 0.4
            calls, pts, lo, hi, L = tree_of(r, s, per, 40, 3)
            ses.extend(calls)
            slots[s] = (pts, lo, hi, L)

        mk(0)
        mk(1)

        def one():
            s = r.choice(list(slots))
            pts, lo, hi, L = slots[s]
            op = r.choice(["q1", "q1", "qk", "qk", "batch", "batch", "axis"] if par else ["q1", "qk"])
            good, bad = any_call(r, op, s, pts, lo, hi, L)
            return bad if r.random() < 0.15 else good

        seen = []
        for _ in range(r.choice([8, 12, 18])):
            x = r.random()
            if x < 0.12:
                ses.append({"op": "dump", "s": r.choice(list(slots))})
            elif x < 0.2 and len(slots) < 4:
                mk(min(set(range(4)) - set(slots)))
            elif x < 0.24 and len(slots) > 1:
                s = r.choice(list(slots))
                ses.append({"op": "drop", "s": s})
                del slots[s]
                seen = [e for e in seen if e.get("s") != s]
            elif x < 0.34:
                thr = [[one() for _ in range(r.randint(1, 4))] for _ in range(r.choice([2, 3, 4, 8]))]
                if seen and r.random() < 0.5:
                    thr = [[dict(r.choice(seen)) for _ in range(2)] for _ in range(4)]
                e = {"op": "conc", "thr": thr}
                if r.random() < 0.35:
                    # from inside of a pool
                    e["nest"] = r.choice([1, 2, 3, 4, 8])
                    e["thr"] = [[dict(x, pool=r.choice([0, 0, 0, 3])) if "pool" in x else x for x in t] for t in thr]
                ses.append(e)
            elif x < 0.5 and seen:
                ses.append(dict(r.choice(seen)))    # asked before
            else:
                e = one()
                seen.append(e)
                ses.append(e)
        for s in slots:
            ses.append({"op": "dump", "s": s})
        out.append(ses)
    return out


def twins(r, count, par=True):
    """after a history of calls, a tree answers like a tree just built from the same data"""
    out = []
    for _ in range(count):
        per = r.random() < 0.4
        calls, pts, lo, hi, L = tree_of(r, 0, per, 40, 3, r.choice([None, 64, 200]))
        calls[0]["psl"] = -1
        if len(pts) < 2000 and r.random() < 0.6:
            # many ties
            pts = calls[0]["pts"] = [[r.choice(p) if not L else x // 2 for x in p] for p in pts]
            lo, hi = min(lo, *[min(p) for p in pts]), max(hi, *[max(p) for p in pts])
        ops = ["q1", "q1", "qk", "qk", "batch", "axis"] if par else ["q1", "qk"]
        asks = [any_call(r, r.choice(ops), 0, pts, lo, hi, L) for _ in range(5)]
        ses = list(calls)
        for _ in range(r.choice([5, 10, 20])):
            good, bad = r.choice(asks) if r.random() < 0.6 else any_call(r, r.choice(ops), 0, pts, lo, hi, L)
            ses.append(dict(bad if r.random() < 0.15 else good))
        ses += [dict(c, s=1) for c in calls]
        # (one after the other: each thread of a phase asks one tree)
        for good, _ in asks:
            ses.append({"op": "conc", "same": True, "thr": [[dict(good)], [dict(good, s=1)]]})
        ses.append({"op": "conc", "same": True, "thr": [[dict(g, s=s) for g, _ in asks] for s in (0, 1, 0, 1)]})
        ses.append({"op": "dump", "s": 0})
        out.append(ses)
    return out


# --------------------------------------------------------------------------
def c15(r, count):
    """the same lattice problem under scales, offsets, precisions, permutations"""
    out = []
    for _ in range(count):
        per = r.random() < 0.35
        d = r.choice([1, 2, 3, 4] if not per else [1, 2, 3])
        n = r.choice([1, 2, 3, 5, 9, 16, 24])
        w = r.choice([3, 9, 20, 64, 200])
        if per:
            pts = coords(r, n, d, 0, w)
            L = [w + r.choice([0, 1, w]) for _ in range(d)]
            qs = box_queries(r, pts, L, 3)
        else:
            lo = shift_range(r, w)
            pts, L = coords(r, n, d, lo, lo + w), None
            qs = queries(r, pts, lo, lo + w, 3)
        ses = []
        for _ in range(4):
            ty = r.choice(["f32", "f64"])
            perm = list(range(n))
            ax = list(range(d))
            if r.random() < 0.6:
                r.shuffle(perm)
            if r.random() < 0.5:
                r.shuffle(ax)
            P = [[pts[i][a] for a in ax] for i in perm]
            e = new(r, 0, ty, d, P)
            m = r.random()
            if m < 0.55 or per:
                e["sc"] = r.choice([-60, -45, -30, -20, -1, 1, 10, 30, 45, 48] if ty == "f32" else
                                   [-500, -400, -100, -52, -20, -1, 1, 40, 100, 300, 450, 490])
            if not per and m > 0.4:
                lim = 2 ** 22 if ty == "f32" else 2 ** 51
                e["off"] = [str(float(r.choice([-1, 1]) * r.choice([lim, lim // 2 + 1, lim // 3, 1000, 0])))
                            for _ in range(d)]
            ses.append(e)
            if per:
                ses.append({"op": "box", "s": 0, "L": [L[a] for a in ax]})
            for q in qs:
                q = [q[a] for a in ax]
                ses.append({"op": "q1", "s": 0, "q": q})
                ses.append({"op": "qk", "s": 0, "q": q, "k": r.randint(1, n)})
            qq = [[q[a] for a in ax] for q in qs]
            ses.append({"op": "batch", "s": 0, "qs": qq, "k": r.randint(1, n), "api": r.choice(["par", "with"]),
                        "pool": r.choice(POOLS)})
            ses.append({"op": "axis", "s": 0, "qs": qq, "k": r.randint(1, n), "ax": r.randrange(d),
                        "pool": r.choice(POOLS)})
            if r.random() < 0.3:
                ses.append({"op": "dump", "s": 0})
        out.append(ses)
    return out


# --------------------------------------------------------------------------
def c19(r, count):
    out = []
    for _ in range(count):
        ty, d = pick_type(r, 65)
        w = span(r, d)
        f = frame(r, ty, w)
        pt = lambda: [r.randint(-w, w) for _ in range(d)]
        ses = []
        for _ in range(6):
            x, y = pt(), pt()
            if r.random() < 0.3:
                y = [r.choice([a, b, a + 1, a - 1]) for a, b in zip(x, y)]
            ses.append({"op": "hd", "ty": ty, "dim": d, "x": x, "y": y, "ax": r.choice(list(range(d)) + [d, -1])})
            lo = [min(a, b) for a, b in zip(x, y)]
            hi = [max(a, b) for a, b in zip(x, y)]
            q = [r.choice([a, b, a - 1, b + 1, (a + b) // 2, r.randint(-w, w)]) for a, b in zip(lo, hi)]
            ses.append({"op": "hs", "ty": ty, "dim": d, "q": q, "lo": lo, "hi": hi})
            dd = sum((a - b) ** 2 for a, b in zip(x, y))
            part = sum((a - b) ** 2 for a, b in zip(x[:-1], y[:-1]))
            ses.append({"op": "hb", "ty": ty, "dim": d, "q": x, "c": y,
                        "best0": max(-1, r.choice([dd, dd, dd + 1, dd - 1, part, part + 1, part - 1, 0, 1, -1,
                                                   r.randint(0, 2 * dd + 1)]))})
        for e in ses:
            e.update(f)
        out.append(ses)
    return out


# --------------------------------------------------------------------------
# sessions from situations enumerated by TLC (spec/Enum.tla)
def enum_sessions(rows, ops, qlo, qhi, every=1, phase=0):
    """rows: enumerated situations; all queries of the lattice [qlo, qhi]^D (or the whole box)"""
    out = []
    for n, c in enumerate(rows):
        if (n + phase) % every:
            continue
        pts, leaf, box = c["pts"], c["leaf"], c["box"]
        d = len(pts[0])
        ses = [{"op": "new", "s": 0, "ty": "f64" if n % 3 else ("f32" if d in (2, 3) else "f64"), "dim": d,
                "leaf": leaf, "pts": pts, "psl": [-1, -1, 0, 2][n % 4]}]
        if box:
            ses.append({"op": "box", "s": 0, "L": [box] * d})
            lo, hi = 0, box
        else:
            lo, hi = qlo, qhi
        cells = [[]]
        for _ in range(d):
            cells = [x + [v] for x in cells for v in range(lo, hi + 1)]
        if "dump" in ops:
            ses.append({"op": "dump", "s": 0})
        if "q1" in ops:
            ses += [{"op": "q1", "s": 0, "q": q} for q in cells]
        for k in range(1, len(pts) + 1):
            if "qk" in ops:
                ses += [{"op": "qk", "s": 0, "q": q, "k": k} for q in cells]
            if "batch" in ops:
                ses.append({"op": "batch", "s": 0, "qs": cells, "k": k, "api": ["par", "with"][(n + k) % 2],
                            "pool": 1 + (n + k) % 8})
            if "axis" in ops:
                for ax in range(d):
                    ses.append({"op": "axis", "s": 0, "qs": cells, "k": k, "ax": ax, "pool": 1 + (n + k) % 8})
        out.append(ses)
    return out


# --------------------------------------------------------------------------
# Python bindings (tools/pyexec.py, spec/PyTrace.tla)
def py_problem(r, per, n=None, d=None):
    ty, d = r.choice(["f32", "f64"]), d or r.choice([2, 3])
    n = n or r.choice([1, 2, 3, 4, 5, 8, 9, 17, 33, 60, 150, 300])
    if per:
        ws = [min(340, span(r, d)) for _ in range(d)]
        pts = [[min(x, ws[j]) for j, x in enumerate(p)] for p in coords(r, n, d, 0, max(ws))]
        L = [w + r.choice([0, 0, 1, w]) for w in ws]
        return ty, d, pts, 0, max(ws), L
    w = span(r, d)
    lo = shift_range(r, w)
    return ty, d, coords(r, n, d, lo, lo + w), lo, lo + w, None


def py_arr(a, ty, d, pts, **kw):
    return dict({"op": "arr", "a": a, "ty": ty, "cols": d, "pts": pts}, **kw)


def py_tree(r, s, a, ty, n, L=None, **kw):
    e = {"op": "tree", "s": s, "a": a, "ty": ty, "leaf": pick_leaf(r, n)}
    if r.random() < 0.5:
        e["psl"] = r.choice([0, 1, 2, 3, 6])
    if r.random() < 0.06:
        e["leaf"] = r.choice(PYHUGE)
    if L:
        e["box"] = {"L": L, "ty": ty}
    e.update(kw)
    return e


def py_query(r, s, ty, d, pts, lo, hi, L, m=None, **kw):
    n = len(pts)
    m = r.choice([0, 1, 1, 2, 3, 5, 8, 17]) if m is None else m
    e = {"op": "query", "s": s, "qty": ty, "cols": d, "qs": batch_qs(r, pts, lo, hi, m, L)}
    if r.random() < 0.8:
        e["k"] = r.choice([0, 1, 1, 2, 3, max(1, n // 2), n, n + 1, r.choice([2 * n + 5] + PYHUGE)])
        if n > 100 and e["k"] > 40 and m > 3:
            e["k"] = r.choice([10, 20])
    if r.random() < 0.35:
        e["ax"] = r.randrange(d)
        if e.get("k", 1) > 40 and m > 3:
            e["k"] = 20
    e.update(kw)
    return e


def c16(r, count, big=(), long=()):
    out = []
    for i in range(count):
        per = r.random() < 0.45
        ty, d, pts, lo, hi, L = py_problem(r, per)
        sc = {"sc": r.choice([-10, 3, -3, 20])} if r.random() < 0.25 else {}
        ses = [{"op": "reset"}, py_arr(0, ty, d, pts, lay=r.choice(["C", "C", "view", "ro"]), **sc),
               py_tree(r, 0, 0, ty, len(pts), L, **sc)]
        for _ in range(6):
            ses.append(py_query(r, 0, ty, d, pts, lo, hi, L, lay=r.choice(["C", "C", "C", "view", "ro"])))
        ses.append({"op": "recheck"})
        out.append(ses)
    for m in big:
        ty, d, pts, lo, hi, L = py_problem(r, r.random() < 0.5, r.choice([3, 9, 30]))
        ses = [{"op": "reset"}, py_arr(0, ty, d, pts), py_tree(r, 0, 0, ty, len(pts), L)]
        for kw in ({"k": 1}, {"k": 3}, {"k": 2, "ax": 0}):
            e = py_query(r, 0, ty, d, pts, lo, hi, L, m, **kw)
            if "ax" not in kw:
                e.pop("ax", None)
            ses.append(e)
        out.append(ses)
    # lists longer than any 16-bit counter, made of copies
    for m, tile in long:
        per = r.random() < 0.5
        ty, d, pts, lo, hi, L = py_problem(r, per, r.choice([40, 150, 300]))
        ses = [{"op": "reset"}, py_arr(0, ty, d, pts), py_tree(r, 0, 0, ty, len(pts), L)]
        for kw in ({"k": 1}, {"k": r.choice([2, 3, 5, 8])}, {"k": r.choice([1, 2, 4]), "ax": r.randrange(d)}):
            e = py_query(r, 0, ty, d, pts, lo, hi, L, m, tile=tile, **kw)
            if "ax" not in kw:
                e.pop("ax", None)
            ses += [e, dict(e, qs=e["qs"][:3], tile=1)]
            ses[-1].pop("tile")
        e = dict(ses[3], bad=spoil(r, m, d))
        ses += [e, ses[3]]
        out.append(ses)
    return out


BADLAYS = ["F", "rows", "cols", "rev", "flat", "3d"]


def py_bad_tree(r, s, a, ty, d, pts, L, neg):
    """a construction that must fail"""
    n = len(pts)
    arr = py_arr(a, ty, d, pts)
    tree = py_tree(r, s, a, ty, n, None)
    mx = [max(p[j] for p in pts) for j in range(d)]
    c = r.choice(["bad", "bad", "bad", "empty", "cols", "lay", "dtype", "boxsmall", "boxbad", "boxlen", "boxty",
                  "boxlay", "odd", "odd", "neg"])
    if c == "bad":
        arr["bad"] = spoil(r, n, d, r.choice([1, 2]))
        if L and r.random() < 0.4:
            tree["box"] = {"L": L, "ty": ty}
    elif c == "empty":
        arr["pts"] = []
    elif c == "cols":
        k = r.choice([1, 4, 5])
        arr["cols"] = k
        arr["pts"] = [(p * 3)[:k] for p in pts]
    elif c == "lay":
        arr["lay"] = r.choice(BADLAYS)
        if n == 1 and arr["lay"] in ("F", "rev", "rows", "cols"):
            arr["lay"] = "flat"
    elif c == "dtype":
        arr["ty"] = "f32" if ty == "f64" else "f64"
    elif c == "odd":
        w = r.choice(["data", "leaf", "par_split_level", "boxsize"])
        tree["odd"] = [w, r.choice(["str", "float", "list", "neg"] + (["none"] if w in ("data", "leaf") else []))]
    elif c == "neg":
        if min(map(min, pts)) < 0:
            tree["box"] = {"L": [max(0, m) + 1 for m in mx], "ty": ty}
        else:
            arr["bad"] = spoil(r, n, d)
    else:
        B = {"L": [max(0, m) + r.choice([0, 1, 5]) for m in mx], "ty": ty}
        if c == "boxsmall":
            j = r.randrange(d)
            B["L"][j] = mx[j] - r.choice([1, 2, 50])
        elif c == "boxbad":
            B["bad"] = [[r.randint(1, d), r.choice(KINDS), 0]]
        elif c == "boxlen":
            B["L"] = (B["L"] * 2)[:r.choice([1, d - 1, d + 1])]
        elif c == "boxty":
            B["ty"] = "f32" if ty == "f64" else "f64"
        else:
            B["lay"] = r.choice(["strided", "2d"])
        tree["box"] = B
    return [arr, tree]


def py_bad_query(r, s, ty, d, pts, lo, hi, L):
    c = r.choice(["bad", "bad", "bad", "cols", "cols", "lay", "lay", "dtype", "axis", "k", "odd"])
    m = r.choice([2, 3, 5, 9] if c == "bad" else [0, 0, 1, 2, 3, 5, 9])
    e = py_query(r, s, ty, d, pts, lo, hi, L, m)
    if c == "bad":
        e["bad"] = spoil(r, m, d, r.choice([1, 1, 2]))
    elif c == "cols":
        k = r.choice([x for x in (1, 2, 3, 4, 6) if x != d])
        e["cols"] = k
        e["qs"] = [(q * 3)[:k] for q in e["qs"]]
    elif c == "lay":
        e["lay"] = r.choice(BADLAYS)
    elif c == "dtype":
        e["qty"] = "f32" if ty == "f64" else "f64"
    elif c == "axis":
        e["ax"] = r.choice([d, d + 1, 100, -1, r.choice(PYHUGE)])
    elif c == "k":
        e["k"] = r.choice([-1, -5])
    else:
        w = r.choice(["query", "k", "axis"])
        e["odd"] = [w, r.choice(["str", "float", "list"] + (["none"] if w == "query" else []))]
        if w in ("k", "axis"):
            e.pop({"k": "k", "axis": "ax"}[w], None)
    return e


def c17(r, count):
    out = []
    for i in range(count):
        per = r.random() < 0.4
        ty, d, pts, lo, hi, L = py_problem(r, per, r.choice([1, 2, 3, 5, 9, 17, 33]))
        ses = [{"op": "reset"}, py_arr(0, ty, d, pts), py_tree(r, 0, 0, ty, len(pts), L)]
        a = 1
        for _ in range(6):
            x = r.random()
            if x < 0.4:
                ses += py_bad_tree(r, 1, a, ty, d, pts, L, per)
                a += 1
            elif x < 0.85:
                ses.append(py_bad_query(r, 0, ty, d, pts, lo, hi, L))
            if r.random() < 0.5:
                ses.append(py_query(r, 0, ty, d, pts, lo, hi, L))
        ses.append(py_query(r, 0, ty, d, pts, lo, hi, L))
        ses.append({"op": "recheck"})
        out.append(ses)
    return out


def c18_from(r, rows, bigshare=0.15):
    """replays lifetime histories generated from spec/MCPyLife.tla"""
    out = []
    for h in rows:
        ty, d = r.choice(["f32", "f64"]), r.choice([2, 3])
        arrs, trees, ids, nid = {}, {}, {}, 0
        ses = [{"op": "reset"}]
        dead, refused = [], set()
        for e in h:
            o = e["op"]
            if o == "arr":
                # histories reuse names; every array is a new object
                ids[e["a"]] = nid
                n = r.choice([1, 2, 3, 5, 8, 20, 50])
                if r.random() < bigshare:
                    g = big_gen(r, r.choice([12000, 20000]), d, "uni")
                    g["s"], g["c"] = [1] * d, [0] * d
                    g["q"] = [x * 3 for x in g["q"]]
                    lo, hi = gen_lohi(g)
                    ses.append({"op": "arr", "a": nid, "ty": ty, "cols": d, "gen": g})
                    arrs[nid] = ([gen_point(g, i) for i in range(0, g["n"], 200)], lo, hi, None, g["n"])
                else:
                    per = r.random() < 0.3
                    w = r.choice([5, 64, 300])
                    pts = coords(r, n, d, 0, w)
                    lay = r.choice(["C", "C", "C", "ro", "ro", "odd"])
                    if lay == "odd":
                        # refused: nothing may be held, and nothing of it be referred to
                        lay = r.choice(["F", "rev", "rows", "cols"] if n > 1 else ["flat"])
                        refused.add(nid)
                    ses.append(py_arr(nid, ty, d, pts, lay=lay))
                    arrs[nid] = (pts, 0, w, [w + 1] * d if per else None, n)
                nid += 1
            elif o == "unref":
                i = ids[e["a"]]
                ses.append({"op": "unref", "a": i})
                if r.random() < 0.5:
                    ses.append({"op": "alive", "a": i})
                dead.append(i)
            elif o == "tree":
                i = ids[e["a"]]
                pts, lo, hi, L, n = arrs[i]
                t = py_tree(r, e["s"], i, ty, min(n, 300), L)
                if n > 1000:
                    t["leaf"] = r.choice([8, 32])
                ses.append(t)
                trees[e["s"]] = i
                if i in refused and r.random() < 0.5:
                    ses.append({"op": "churn"})
            elif o == "drop":
                i = trees.pop(e["s"])
                if i in refused:
                    ses.append({"op": "alive", "a": i})
                    continue
                ses += [{"op": "drop", "s": e["s"]}, {"op": "alive", "a": i}]
            elif o == "churn":
                ses.append({"op": "churn"})
            elif o == "query":
                if trees[e["s"]] in refused:
                    continue
                pts, lo, hi, L, n = arrs[trees[e["s"]]]
                q = py_query(r, e["s"], ty, d, pts, lo, hi, L, r.choice([1, 2, 4]) if n < 1000 else 2)
                if n > 1000:
                    q["k"] = r.choice([1, 3, 8])
                if r.random() < 0.15 and n < 1000:
                    q = {"op": "threads", "thr": [[dict(q), py_query(r, e["s"], ty, d, pts, lo, hi, L, 2)]
                                                  for _ in range(3)]}
                ses.append(q)
        for i in dead[-2:]:
            ses.append({"op": "alive", "a": i})
        ses.append({"op": "recheck"})
        out.append(ses)
    return out


# --------------------------------------------------------------------------
# histories generated by TLC (spec/MCApi.tla), their arguments filled in
def near_box(r, mx, kind):
    L = [max(0, m) + r.choice([0, 1, 3, m + 1 if m > 0 else 5]) for m in mx]
    if kind == "tight":
        L = [max(0, m) for m in mx]
    e = {"L": L}
    if kind == "loose":
        e["L"] = [max(0, m) * 2 + r.choice([0, 1, 7]) for m in mx]
    elif kind == "small":
        j = r.randrange(len(mx))
        L[j] = mx[j] - r.choice([1, 1, 2, max(1, mx[j])])
    elif kind in ("nan", "inf", "-inf"):
        e["bad"] = [[r.randint(1, len(mx)), kind, 0]]
    return e


def history(r, row, par=True):
    """one session from a history of kinds of calls"""
    ses, live, asked = [], {}, {}
    for h in row:
        s = h["s"]
        if h["op"] == "new":
            ty, d = pick_type(r, 4)
            n = 1 if h["data"] == "one" else r.choice([1, 2, 3, 4, 5, 8, 9, 16, 17, 33])
            ws = [min(340, span(r, d))] * d
            pts = [[min(x, w) for x, w in zip(p, ws)] for p in coords(r, n, d, 0, max(ws))]
            if h["data"] == "neg":
                for _ in range(r.choice([1, 1, n])):
                    pts[r.choice([0, n - 1, r.randrange(n)])][r.randrange(d)] = -r.choice([1, 2, ws[0]])
            if h["data"] == "empty":
                pts = []
            e = new(r, s, ty, d, pts, leaf=pick_leaf(r, n))
            e.update(frame(r, ty, max(ws)))
            if h["data"] in ("nan", "inf"):
                e["bad"] = [[r.randint(1, d), r.choice(["inf", "-inf"]) if h["data"] == "inf" else "nan",
                             r.choice([0, n - 1, r.randrange(n)])]]
            ses.append(e)
            live[s] = (pts, None, d)
            asked.pop(s, None)
        elif h["op"] == "box":
            pts, _, d = live[s]
            b = near_box(r, [max(p[j] for p in pts) for j in range(d)], h["box"])
            ses.append(dict(b, op="box", s=s))
            live[s] = (pts, b["L"], d)
        elif h["op"] == "ask":
            pts, L, d = live[s]
            a = h["ask"]
            if not par and a["op"] in ("batch", "axis"):
                continue
            lo, hi = min(map(min, pts)), max(map(max, pts))
            good, bad = any_call(r, a["op"], s, pts, lo, hi, L)
            e = bad if a["bad"] else good
            if "k" in e:
                e["k"] = {0: 0, 9: len(pts) + r.choice([0, 1, 7])}.get(a["k"], r.randint(1, len(pts) + 1))
            if a["ax"] not in (0, 1):
                e["ax"] = {2: r.choice([d, d + 1, 1000]), -1: -1}[a["ax"]]
            if asked.get(s) and r.random() < 0.5:
                # asked before, perhaps before the box was set
                f = r.choice(asked[s])
                rows = [f["q"]] if "q" in f else f["qs"]
                if L and any(x < 0 or x > l for q in rows for x, l in zip(q, L)):
                    pass
                elif "q" in f and "q" in e:
                    e["q"] = f["q"]
                elif "qs" in f and "qs" in e and not e.get("bad"):
                    e["qs"] = f["qs"]
            asked.setdefault(s, []).append(e)
            ses.append(e)
        else:
            ses.append({"op": h["op"], "s": s})
            if h["op"] == "drop":
                asked.pop(s, None)
    return ses


def boxed_later(r, count, par=True):
    """the same questions before and after a tree gets a box, and another one"""
    out = []
    for _ in range(count):
        if r.random() < 0.3:
            e, b, pts, L = mid_box(r, n=r.choice([64, 130, 257]))
        else:
            e, b, pts, L = box_tree(r, 0, 40, 4)
        n, d = len(pts), len(pts[0])
        asks = []
        for _ in range(5):
            op = r.choice(["q1", "q1", "qk", "qk", "batch", "axis"] if par else ["q1", "qk"])
            # in the smallest of the boxes
            a, _ = any_call(r, op, 0, pts, 0, max(L), L)
            if "k" in a:
                a["k"] = min(a["k"], 40)
            asks.append(a)
        ses = [e] + [dict(a) for a in asks]
        if r.random() < 0.3:
            ses.append({"op": "dump", "s": 0})
        ses += [b] + [dict(a) for a in r.sample(asks, len(asks))]
        if r.random() < 0.5:
            L2 = [l + r.choice([0, 0, 1, 2, l // 2]) for l in L]
            if d * (2 * max(L2)) ** 2 < 2 ** 31:
                ses += [dict(b, L=L2)] + [dict(a) for a in r.sample(asks, len(asks))]
        if r.random() < 0.3:
            # the same data without a box, in another slot, and again with one
            f = dict(e, s=1)
            ses += [f] + [dict(r.choice(asks), s=i % 2) for i in range(6)]
            ses += [dict(b, s=1)] + [dict(r.choice(asks), s=i % 2) for i in range(4)]
        out.append(ses)
    return out


def histories(r, rows, every=1, phase=0, par=True):
    return [history(r, x, par) for i, x in enumerate(rows) if (i + phase) % every == 0]


# --------------------------------------------------------------------------
# double precision resolves what single precision cannot: squared distances
# around 2^29 that differ by a few units
def rim(r, d, R2, m, spread=64):
    """m integer vectors whose squared lengths are about R2 and nearly equal"""
    R = int(R2 ** 0.5)
    found = []
    for _ in range(400 * m if d > 1 else 4 * m):
        rest, v = R2, []
        for j in range(d - 1):
            x = r.randint(0, int((rest * 0.7) ** 0.5))
            v.append(x)
            rest -= x * x
        x = int(rest ** 0.5 + 0.5)
        v.append(x)
        found.append((abs(sum(y * y for y in v) - R2), v))
    found.sort(key=lambda t: t[0])
    out = []
    for _, v in found[:max(m, 4)]:
        v = [y * r.choice([-1, 1]) for y in v]
        r.shuffle(v)
        out.append(v)
    while len(out) < m:
        out.append(list(r.choice(out)))
    r.shuffle(out)
    return out[:m]


def near_ties(r, count, kind):
    """kind: 1, k, p1, pk, batch, axis"""
    out = []
    for _ in range(count):
        d = r.choice([1, 2, 2, 3, 3, 4])
        R2 = r.choice([2 ** 28, 2 ** 27 + 12345, 3 * 10 ** 8, 2 ** 25 + 7])
        if kind[0] == "p":
            R2 = r.choice([2 ** 24 + 99, 2 ** 25 + 7, 2 ** 26 - 5])
        n = r.choice([2, 3, 5, 8, 12, 20])
        v = rim(r, d, R2, n)
        base = list(v)
        for _ in range(r.choice([0, 0, 2])):
            v.append([2 * x for x in r.choice(base)] if R2 < 2 ** 28 else [x + 1 for x in r.choice(base)])
        n = len(v)
        per = kind[0] == "p" or (kind in ("batch", "axis") and r.random() < 0.4)
        R = int(R2 ** 0.5) + 2
        leaf = r.choice([0, 1, 1, 2, 4, n])
        if per:
            # the query near a corner, so that most of the rim lies behind a face
            # (the specification squares differences of up to two box lengths)
            f = r.choice([2, 2.5, 3, 4])
            L = [int(f * R) + r.choice([3, 4, 5])] * d
            if d * (2 * max(L)) ** 2 >= 2 ** 31:
                L = [2 * R + 3] * d
            if d * (2 * max(L)) ** 2 >= 2 ** 31:
                continue
            c = [r.choice([0, 1, 7, l - 1, l]) for l in L]
            pts = [[(c[j] + x) % L[j] for j, x in enumerate(p)] for p in v]
        else:
            L = None
            o = r.choice([0, -R, 5 * R])
            c = [o + r.randint(0, 100) for _ in range(d)]
            pts = [[c[j] + x for j, x in enumerate(p)] for p in v]
        e = new(r, 0, "f64", d, pts, leaf=leaf)
        if r.random() < 0.3:
            e["sc"] = r.choice([-40, 40, -300, 300])
        ses = [e] + ([{"op": "box", "s": 0, "L": L}] if L else [])
        qs = [c] + [[min(L[j], max(0, x + r.choice([-1, 0, 1]))) if L else x + r.choice([-1, 0, 1])
                     for j, x in enumerate(c)] for _ in range(3)]
        if kind in ("1", "p1"):
            ses += [{"op": "q1", "s": 0, "q": q} for q in qs]
        elif kind in ("k", "pk"):
            ses += [{"op": "qk", "s": 0, "q": q, "k": r.randint(1, n)} for q in qs for _ in range(2)]
        elif kind == "batch":
            ses += [{"op": "batch", "s": 0, "qs": qs, "k": r.randint(1, n), "api": a, "pool": r.choice(POOLS)}
                    for a in ("par", "with")]
        else:
            ses += [{"op": "axis", "s": 0, "qs": qs, "k": r.randint(1, n), "ax": r.randrange(d),
                     "pool": r.choice(POOLS)}]
        out.append(ses)
    return out


# --------------------------------------------------------------------------
# double precision to its last bit: squared distances up to 2^53 that differ by
# a few units (the specification computes them in two parts)
def wide_rim(r, d, a, m):
    out = []
    for _ in range(m):
        j = r.randint(-6, 6)
        if d == 1:
            v = [a + j]
        else:
            # the sum of squares is 2 a^2 + 2 j^2 + small terms
            v = [a + j, a - j] + [r.choice([0, 0, 1, 2, 3]) for _ in range(d - 2)]
        v = [y * r.choice([-1, 1]) for y in v]
        r.shuffle(v)
        out.append(v)
    return out


def wide_aligned(r, d, a, m):
    """points straight ahead along an axis, at a distance that the box of a
    neighbouring space comes very close to, and rivals a few units further off"""
    out = []
    for _ in range(m):
        v = [0] * d
        j = r.randrange(d)
        v[j] = a * r.choice([-1, 1])
        if d > 1 and r.random() < 0.7:
            for _ in range(r.choice([1, 1, 2])):
                i = r.choice([x for x in range(d) if x != j])
                v[i] = r.choice([-2, -1, 1, 2])
        out.append(v)
    return out


def wide(r, count, kind):
    """kind: 1, k, p1, pk, batch, axis"""
    out = []
    for _ in range(count):
        d = r.choice([1, 2, 2, 2, 3, 3, 4])
        per = kind[0] == "p"
        a = r.choice([2 ** 23 - 7, 2 ** 22 + 1, 2 ** 20 + 3, 2 ** 16] if per else
                     [2 ** 25 - 7, 2 ** 24 + 1, 2 ** 23 + 5, 2 ** 20 + 3, 2 ** 16])
        if d == 4 or (d == 1 and not per):
            a //= 2
        n = r.choice([2, 3, 5, 8, 12, 20])
        v = (wide_aligned if r.random() < 0.4 else wide_rim)(r, d, a, n)
        for _ in range(r.choice([0, 0, 1, 3])):
            v.append([r.choice([x // 2, x // 3, x + 1, x - 1]) for x in r.choice(v)])
        r.shuffle(v)
        n = len(v)
        if per:
            d_, L = d, [r.choice([2 * a + 20, 2 * a + 21, 3 * a, 4 * a + 1]) for _ in range(d)]
            if r.random() < 0.5:
                L = [L[0]] * d
            L = [min(l, 2 ** 24) for l in L]
            c = [r.choice([0, 1, 7, l - 1, l, l // 2]) for l in L]
            pts = [[(c[j] + x) % L[j] for j, x in enumerate(p)] for p in v]
        else:
            L = None
            o = r.choice([0, -(2 ** 25) + 500, 2 ** 25 - 500]) if a < 2 ** 25 else 0
            c = [o + r.randint(0, 100) for _ in range(d)]
            pts = [[c[j] + x for j, x in enumerate(p)] for p in v]
        e = new(r, 0, "f64", d, pts, leaf=r.choice([0, 1, 1, 2, 4, n]), wide=True)
        if r.random() < 0.4:
            e["sc"] = r.choice([-40, 40, -300, 300, -26])
        ses = [e] + ([{"op": "box", "s": 0, "L": L}] if per else [])
        qs = [c] + [[min(L[j], max(0, x + r.choice([-1, 0, 1]))) if L else x + r.choice([-1, 0, 1])
                     for j, x in enumerate(c)] for _ in range(3)]
        if kind in ("1", "p1"):
            ses += [{"op": "q1", "s": 0, "q": q} for q in qs]
        elif kind in ("k", "pk"):
            ses += [{"op": "qk", "s": 0, "q": q, "k": r.randint(1, n)} for q in qs for _ in range(2)]
        elif kind == "batch":
            ses += [{"op": "batch", "s": 0, "qs": qs, "k": r.randint(1, n), "api": a_, "pool": r.choice(POOLS)}
                    for a_ in ("par", "with")]
        else:
            ses += [{"op": "axis", "s": 0, "qs": qs, "k": r.randint(1, n), "ax": r.randrange(d),
                     "pool": r.choice(POOLS)}]
        out.append(ses)
    return out


# --------------------------------------------------------------------------
# finite coordinates whose squared distances overflow or vanish: every call
# still returns with the right shape, and trees are well-formed
def wild(r, count, par=True):
    out = []
    for _ in range(count):
        per = r.random() < 0.4
        n = r.choice([1, 2, 3, 5, 9, 17, 33])
        calls, pts, lo, hi, L = tree_of(r, 0, per, 33, 5 if per else 8, n)
        e = calls[0]
        e["wild"] = True
        e["sc"] = r.choice([55, 60, 90, 110, -75, -100, -140] if e["ty"] == "f32" else
                           [505, 600, 800, 1000, -540, -700, -1000, -1060])
        ses = list(calls) + [{"op": "dump", "s": 0}]
        for _ in range(6):
            op = r.choice(["q1", "qk", "qk", "batch", "axis"] if par else ["q1", "qk"])
            good, bad = any_call(r, op, 0, pts, lo, hi, L)
            ses.append(good if r.random() < 0.9 else bad)
        if r.random() < 0.3:
            # up to the largest float
            top = max([1] + [abs(x) for c in ses for p in c.get("pts", []) + c.get("qs", []) + [c.get("q", [])]
                             + [c.get("L", [])] for x in p])
            e["sc"] = (128 if e["ty"] == "f32" else 1024) - top.bit_length()
        out.append(ses)
    return out


# --------------------------------------------------------------------------
# one axis much coarser or finer than the others: totals are rounded, parts are not
def apart(r, count, axis=True):
    out = []
    for _ in range(count):
        ty = r.choice(["f32", "f64", "f64"])
        d = r.choice([2, 2, 3, 3, 4, 6])
        n = r.choice([1, 2, 3, 5, 9, 17, 33, 70])
        w = r.choice([3, 9, 40, 120] if ty == "f32" else [3, 9, 40, 200, 1000])
        pts = coords(r, n, d, 0, w)
        a = r.randrange(d)
        if r.random() < 0.4:
            # many points that only the other axes tell apart
            for p in pts:
                p[a] = r.choice([0, 1, w // 2])
        e = new(r, 0, ty, d, pts)
        e.pop("off", None)
        # the least of the one part is above the greatest of the other
        bits = ((d * (2 * w) ** 2).bit_length() + 1) // 2 + 2
        up = r.choice([bits, bits + 1, 13, 20] if ty == "f32" else [bits, bits + 3, 26, 30, 40, 100, 200])
        up = max(up, bits)
        e["sc"] = r.choice([0, 3, -up // 2]) if ty == "f32" else r.choice([0, 20, -50])
        e["apart"] = [a, up if r.random() < 0.5 else -up]
        ses = [e]
        for q in queries(r, pts, 0, w, 4):
            q = [min(2 * w, max(-w, x)) for x in q]
            k = r.choice([1, 2, n, n, r.randint(1, n)])
            qs = [q] + [list(r.choice(pts))] * r.choice([0, 1, 2])
            if axis:
                ses.append({"op": "axis", "s": 0, "qs": qs, "k": k, "ax": a, "pool": r.choice(POOLS)})
            ses += [{"op": "qk", "s": 0, "q": q, "k": k}, {"op": "q1", "s": 0, "q": q}]
        out.append(ses)
    return out


# one slot built again and again: other data of the same size (often at the same
# address), the same questions
def rebuilt(r, count, par=True):
    out = []
    for _ in range(count):
        per = r.random() < 0.4
        n = r.choice([1, 2, 3, 5, 8, 17, 33, 100])
        calls, pts, lo, hi, L = tree_of(r, 0, per, 40, 3, n)
        asks = []
        for _ in range(4):
            op = r.choice(["q1", "q1", "qk", "batch", "axis"] if par else ["q1", "qk"])
            e, _ = any_call(r, op, 0, pts, lo, hi, L)
            asks.append(e)
        ses = []
        for i in range(r.choice([2, 3, 4])):
            if i:
                calls = [dict(x) for x in calls]
                p = [list(x) for x in calls[0]["pts"]]
                c = r.randrange(5)
                if c == 0:
                    r.shuffle(p)
                elif c == 1:
                    p[r.randrange(n)] = list(r.choice(p))
                elif c == 2:
                    calls[0]["leaf"] = pick_leaf(r, n)
                elif c == 3 and per:
                    calls[1]["L"] = [l + r.choice([0, 1, 5]) for l in L]
                else:
                    # leave the first and the last point: shortcuts might look at them
                    for x in p[1:-1] or p:
                        x[r.randrange(len(x))] = r.choice(p)[0] if not per else 0
                calls[0]["pts"] = p
            ses += calls
            ses += [dict(a) for a in asks] + [dict(r.choice(asks))]
            if r.random() < 0.4:
                ses.append({"op": "drop", "s": 0})
        out.append(ses)
    return out


def c20(r, count, big=()):
    """calls and whole lives of trees, repeated"""
    out = []
    for _ in range(count):
        per = r.random() < 0.4
        ses, pts, lo, hi, L = tree_of(r, 0, per, 40, 4)
        ses = list(ses)
        for _ in range(3):
            ops = ["q1", "qk"] if r.random() < 0.3 else ["batch", "axis"]
            pairs = [any_call(r, op, 0, pts, lo, hi, L) for op in ops]
            calls = [x for p in pairs for x in (p if r.random() < 0.5 else [p[r.random() < 0.5]])]
            for c in calls:
                if c["op"] == "axis" and r.random() < 0.2:
                    c["ax"] = len(pts[0]) + r.randrange(2)
            # every worker of `with` makes a large container
            n = 3 if any(c.get("api") == "with" for c in calls) else 40
            ses.append({"op": "again", "s": 0, "n": n, "calls": calls})
        ses.append({"op": "dump", "s": 0})
        n = 20
        ty, d = pick_type(r, 4)
        nn = r.choice([0, 1, 2, 5, 9, 17, 40, 200, 700])
        w = span(r, d)
        P = coords(r, nn, d, 0, w) if nn else []
        e = {"op": "remake", "s": 1, "n": n, "ty": ty, "dim": d, "leaf": pick_leaf(r, max(1, nn)), "pts": P}
        p = psl(r)
        if p >= 0 or r.random() < 0.5:
            e["psl"] = p if p >= 0 else r.choice([0, 1, 2, 3])
        x = r.random()
        if nn and x < 0.3:
            e["bad"] = spoil(r, nn, d)
        elif nn and x < 0.8:
            e["then"] = {"op": "box", "L": [w + r.choice([0, 1, -w]) for _ in range(d)]}
            if r.random() < 0.2:
                e["then"]["bad"] = [[r.randint(1, d), r.choice(KINDS), 0]]
        ses.append(e)
        out.append(ses)
    for n, p in big:
        d = r.choice([1, 2, 3])
        e = {"op": "remake", "s": 1, "n": 3, "ty": r.choice(["f32", "f64"]), "dim": d, "leaf": r.choice([8, 32, 200]),
             "gen": big_gen(r, n, d, "uni")}
        if p >= 0:
            e["psl"] = p
        out.append([e])
    return out


def many(r, count, n):
    """more calls than a 16-bit counter holds"""
    out = []
    for i in range(count):
        per = i % 2 == 1
        ses, pts, lo, hi, L = tree_of(r, 0, per, 40, 3)
        ses = list(ses)
        for ops, m in ((["q1", "qk"], n), (["batch", "axis"], n // 4), (["batch"], 300)):
            calls = []
            for op in ops:
                good, _ = any_call(r, op, 0, pts, lo, hi, L)
                if "qs" in good:
                    good["qs"], good["pool"] = good["qs"][:3], 2
                    good["k"] = min(good["k"], 3)
                if op == "batch":
                    good["api"] = "par" if m > 300 else "with"
                elif op == "qk":
                    good["k"] = r.choice([1, 2, 3, 5])
                calls.append(good)
                if r.random() < 0.3:
                    calls.append(dict(good, bad=spoil(r, len(good.get("qs", [0])), len(pts[0]))))
            ses.append({"op": "many", "s": 0, "n": m, "calls": calls})
        ses.append({"op": "dump", "s": 0})
        out.append(ses)
    return out


def c20_py(r, count):
    out = []
    for _ in range(count):
        per = r.random() < 0.4
        ty, d, pts, lo, hi, L = py_problem(r, per, r.choice([1, 2, 5, 17, 60]))
        ses = [{"op": "reset"}, py_arr(0, ty, d, pts), py_tree(r, 0, 0, ty, len(pts), L)]
        for j in range(2):
            c = py_query(r, 0, ty, d, pts, lo, hi, L) if r.random() < 0.6 else py_bad_query(r, 0, ty, d, pts, lo, hi, L)
            ses.append({"op": "again", "s": 0, "n": 60, "call": c})
        if r.random() < 0.4:
            arr, tree = py_bad_tree(r, 1, 1, ty, d, pts, L, per)
        else:
            arr, tree = py_arr(1, ty, d, pts), py_tree(r, 1, 1, ty, len(pts), L)
        ses += [arr, dict(tree, op="remake", n=60), py_query(r, 0, ty, d, pts, lo, hi, L), {"op": "unref", "a": 1},
                {"op": "alive", "a": 1}, {"op": "drop", "s": 0}, {"op": "unref", "a": 0}, {"op": "alive", "a": 0}]
        out.append(ses)
    return out


def schedules(r, count, build=True):
    """small concurrent work, for an interpreter that explores schedules"""
    out = []
    for _ in range(count):
        d = r.choice([1, 2, 3])
        n = r.choice([16, 24, 40] if build else [6, 9, 14, 20])
        w = span(r, d)
        pts = coords(r, n, d, 0, w)
        ses = [new(r, 0, r.choice(["f32", "f64"]), d, pts, r.choice([1, 1, 2, 3]), psl=r.choice([2, 3, 4, 5, 6]) if build else -1)]
        L = None
        if r.random() < 0.4:
            L = [w + r.choice([0, 1, w]) for _ in range(d)]
            ses.append({"op": "box", "s": 0, "L": L})
        ses.append({"op": "dump", "s": 0})
        if build:
            ses.append({"op": "q1", "s": 0, "q": (box_queries(r, pts, L, 1) if L else queries(r, pts, 0, w, 1))[0]})
        else:
            for op in ("batch", "axis"):
                e = {"op": op, "s": 0, "qs": batch_qs(r, pts, 0, w, r.choice([2, 3, 5]), L), "k": r.choice([1, 2, 3, n]),
                     "pool": r.choice([2, 2, 3])}
                e.update({"api": "par"} if op == "batch" else {"ax": r.randrange(d)})
                if r.random() < 0.15:
                    e["bad"] = spoil(r, len(e["qs"]), d)
                ses.append(e)
        out.append(ses)
    return out


def c21(r, count, sizes, builds):
    """calls whose computed distances are counted; builds whose comparisons are"""
    out = []
    for i in range(count):
        d = r.choice([1, 2, 2, 3, 3])
        n = r.choice(sizes)
        leaf = r.choice([4, 8, 8, 16, 32, 60])
        per = r.random() < 0.5
        sh = r.choice(["any", "any", "grid", "lumps", "line", "few"])
        w = {1: 7000, 2: 3000, 3: 2000}[d]
        if sh == "grid":
            w = int(n ** (1 / d)) + 1
        pts = [[r.randint(0, w) for _ in range(d)] for _ in range(n)]
        if sh == "lumps":
            cs = [[r.randint(0, w) for _ in range(d)] for _ in range(5)]
            pts = [[max(0, min(w, x + int(r.gauss(0, w / 50)))) for x in r.choice(cs)] for _ in range(n)]
        elif sh == "line":
            pts = [[t] * d for t in (r.randint(0, w) for _ in range(n))]
        elif sh == "few":
            pts = [[x // (w // 6 + 1) * (w // 6 + 1) for x in p] for p in pts]
        e = {"op": "new", "s": 0, "ty": "cnt", "dim": d, "leaf": leaf, "pts": pts}
        p = psl(r)
        if p >= 0:
            e["psl"] = p
        ses = [e]
        L = None
        if per:
            L = [w + r.choice([0, 1, w // 10, w]) for _ in range(d)]
            ses.append({"op": "box", "s": 0, "L": L})

        def query():
            x = r.random()
            if x < 0.35:
                q = [c + r.choice([-1, 0, 0, 1]) for c in r.choice(pts)]
            elif per:
                q = [r.choice([r.randint(0, l), r.randint(0, l), 0, l, r.randint(0, l // 50 + 1), l - r.randint(0, l // 50 + 1)]) for l in L]
            else:
                q = [r.randint(-w // 3, w + w // 3) if x > 0.85 else r.randint(0, w) for _ in range(d)]
            return [max(0, min(l, c)) for c, l in zip(q, L)] if per else q

        calls = []
        for _ in range(4):
            k = r.choice([1, 1, 2, 3, 3, leaf // 2, leaf])
            m = r.choice([1, 2, 3, 5])
            qs = [query() for _ in range(m)]
            calls += [{"op": "q1", "s": 0, "q": query()}, {"op": "qk", "s": 0, "q": query(), "k": min(k, 8)}]
            if r.random() < 0.5:
                calls.append({"op": "batch", "s": 0, "qs": qs, "k": min(k, 8), "api": "with" if r.random() < 0.1 else "par",
                              "pool": r.choice([0, 1, 2, 4])})
            else:
                calls.append({"op": "axis", "s": 0, "qs": qs[:2], "k": min(k, 3), "ax": r.randrange(d), "pool": r.choice([0, 1, 4])})
        ses.append({"op": "work", "s": 0, "calls": calls})
        out.append(ses)
    for n, sh in builds:
        d = r.choice([1, 2, 3])
        e = {"op": "new", "s": 0, "ty": "cnt", "dim": d, "leaf": r.choice([1, 4, 8, 32, 100]), "gen": big_gen(r, n, d, sh)}
        if r.random() < 0.5:
            e["psl"] = r.choice([0, 1, 2, 4])
        out.append([e])
    return out
