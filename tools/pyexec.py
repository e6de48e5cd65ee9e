"""Executes call scripts against the Python bindings and records what Python sees.
usage: python pyexec.py SCRIPT TRACE   (module pyfnntw on PYTHONPATH)"""
import ctypes
import gc
import json
import math
import sys
import threading
import weakref

import numpy as np
import pyfnntw

DT = {"f32": np.float32, "f64": np.float64}
CLS = {"f32": pyfnntw.Treef32, "f64": pyfnntw.Treef64}
ODD = {"str": "x", "none": None, "float": 1.5, "list": [1], "neg": -1}


def gen_points(g):
    n, d = g["n"], len(g["a"])
    i = np.arange(n, dtype=np.int64) % g["m"]
    cols = [g["s"][j] * (((g["a"][j] * i + g["b"][j]) % g["m"]) // g["q"][j]) + g["c"][j] for j in range(d)]
    return np.stack(cols, axis=1)


def spoil(a, bad):
    for ax, kind, row in bad:
        a[row, ax - 1] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[kind]


BIG = [2 ** 64 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 31, 2 ** 63, 2 ** 63 - 1, 2 ** 33 - 1]


def size_of(k):
    """numbers from 1.9e9 on stand for sizes beyond the specification's integers"""
    return BIG[k - 1900000000] if isinstance(k, int) and 1900000000 <= k < 1900000000 + len(BIG) else k


def layout(base, lay):
    """the same values in another memory layout"""
    if lay == "F":
        return np.asfortranarray(base)
    if lay == "rows":
        big = np.full((2 * base.shape[0] + 1,) + base.shape[1:], 77, base.dtype)
        big[1::2] = base
        return big[1::2]
    if lay == "cols":
        big = np.full((base.shape[0], base.shape[1] + 2), 77, base.dtype)
        big[:, 1:-1] = base
        return big[:, 1:-1]
    if lay == "rev":
        return np.ascontiguousarray(base[::-1])[::-1]
    if lay == "view":        # contiguous part of a bigger array
        big = np.full((base.shape[0] + 4,) + base.shape[1:], 77, base.dtype)
        big[2:-2] = base
        return big[2:-2]
    if lay == "ro":
        base = base.copy()
        base.flags.writeable = False
        return base
    if lay == "flat":
        return base.reshape(-1).copy()
    if lay == "3d":
        return base[None].copy()
    return base


def array(e, key, ty):
    if "gen" in e:
        a = gen_points(e["gen"]).astype(DT[ty])
    else:
        a = np.array(e[key], dtype=np.int64).reshape(len(e[key]), e["cols"]).astype(DT[ty])
    sc = 2.0 ** e.get("sc", 0)
    if sc != 1.0:
        a = (a * DT[ty](sc)).astype(DT[ty])
    spoil(a, e.get("bad", []))
    if "tile" in e:
        a = np.tile(a, (e["tile"], 1))
    return layout(a, e.get("lay", "C"))


def root(v, ty, sc):
    eps = 2.0 ** -23 if ty == "f32" else 2.0 ** -52
    y = float(v) * 2.0 ** -sc
    if not (0.0 <= y <= 44000.0):
        return -1
    m = float(round(y * y))
    s = math.sqrt(m)
    return int(m) if abs(y - s) <= 4 * eps * s else -1


class Mallinfo(ctypes.Structure):
    _fields_ = [(x, ctypes.c_size_t) for x in
                "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


LIBC = ctypes.CDLL(None)
LIBC.mallinfo2.restype = Mallinfo


def in_use():
    gc.collect()
    m = LIBC.mallinfo2()
    return m.uordblks + m.hblkhd


def growth(n, f, watch):
    """does f many times, in windows, until in one of them the memory in use did not
    grow; how much it grew in the window where it grew least, and how many references
    to watch are new"""
    for _ in range(min(n, 20)):
        f()
    def counts():
        return [sys.getrefcount(x) for x in watch]
    refs = counts()
    least, last = 1 << 60, in_use()
    for _ in range(40):
        for _ in range(n):
            f()
        now = in_use()
        least, last = min(least, now - last), now
        if least <= 0:
            break
    return {"grow": min(999999999, max(0, least)),
            "refs": sum(abs(x - y) for x, y in zip(counts(), refs)), "res": "ok"}


class Session:
    def __init__(self):
        self.arrs, self.weak, self.trees, self.kept = {}, {}, {}, []

    def op(self, e):
        out = {}
        o = e["op"]
        if o == "arr":
            a = array(e, "pts", e["ty"])
            out["contig"] = bool(a.flags.c_contiguous)
            out["nd"] = a.ndim
            self.arrs[e["a"]] = a
            self.weak[e["a"]] = weakref.ref(a)
        elif o == "unref":
            del self.arrs[e["a"]]
        elif o == "churn":
            churn()
        elif o == "alive":
            gc.collect()
            out["alive"] = self.weak[e["a"]]() is not None
        elif o == "recheck":
            out["same"] = all(np.array_equal(a, b) and a.flags.owndata is not None for a, b in self.kept)
        elif o == "tree":
            self.trees.pop(e["s"], None)
            return self.tree(e)
        elif o == "drop":
            self.trees.pop(e["s"], None)
            gc.collect()
        elif o == "query":
            return self.query(e)
        elif o == "threads":
            return self.threads(e)
        elif o == "again":
            return self.again(e)
        elif o == "remake":
            self.trees.pop(e["s"], None)
            x = {}
            a, leaf, kw = self.tree_args(e, x)

            def once():
                try:
                    CLS[e["ty"]](a, leaf, **kw)
                except Exception:
                    pass
            return dict(x, **growth(e["n"], once, [a] + list(kw.values())))
        elif o == "reset":
            self.__init__()
            gc.collect()
        else:
            raise SystemExit("TOOL-ERROR unknown op " + o)
        out["res"] = "ok"
        return out

    def again(self, e):
        """the same query many times; then once more, and that answer is looked at"""
        c = e["call"]
        tree, ty, sc = self.trees[c["s"]]
        q, kw = self.query_args(c, {})

        def once():
            try:
                tree.query(q, **kw)
            except Exception:
                pass
        g = growth(e["n"], once, [q, tree])
        return dict(g, call=dict(c, **self.query(c)))

    def tree_args(self, e, out):
        kw = {}
        if "psl" in e:
            kw["par_split_level"] = e["psl"]
        if "box" in e:
            b = dict(e["box"])
            box = np.array(b["L"], dtype=np.int64).astype(DT[b["ty"]]) * DT[b["ty"]](2.0 ** e.get("sc", 0))
            for ax, kind, _ in b.get("bad", []):
                box[ax - 1] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[kind]
            if b.get("lay") == "strided":
                big = np.zeros(2 * len(box), box.dtype)
                big[::2] = box
                box = big[::2]
            elif b.get("lay") == "2d":
                box = box[None].copy()
            b["contig"] = bool(box.flags.c_contiguous)
            b["nd"] = box.ndim
            b.setdefault("bad", [])
            out["box"] = b
            kw["boxsize"] = box
        a = self.arrs[e["a"]]
        leaf = size_of(e["leaf"])
        if "odd" in e:
            w, v = e["odd"]
            v = ODD[v]
            if w == "data":
                a = v
            elif w == "leaf":
                leaf = v
            else:
                kw[w] = v
        return a, leaf, kw

    def tree(self, e):
        out = {}
        a, leaf, kw = self.tree_args(e, out)
        try:
            self.trees[e["s"]] = (CLS[e["ty"]](a, leaf, **kw), e["ty"], e.get("sc", 0))
            out["res"] = "ok"
        except Exception as x:
            out["res"], out["exc"] = "exc", type(x).__name__
        return out

    def query_args(self, e, out):
        _, ty, sc = self.trees[e["s"]]
        out["ty"] = ty
        q = array(dict(e, sc=sc), "qs", e["qty"])
        out["contig"], out["nd"] = bool(q.flags.c_contiguous), q.ndim
        kw = {}
        if "k" in e:
            kw["k"] = size_of(e["k"])
        if "ax" in e:
            kw["axis"] = size_of(e["ax"])
        if "odd" in e:
            w, v = e["odd"]
            if w == "query":
                q = ODD[v]
            else:
                kw[w] = ODD[v]
        return q, kw

    def query(self, e):
        tree, ty, sc = self.trees[e["s"]]
        out = {}
        q, kw = self.query_args(e, out)
        try:
            a, b = tree.query(q, **kw)
        except Exception as x:
            out["res"], out["exc"] = "exc", type(x).__name__
            return out
        out["res"] = "ok"
        out["shape"] = [list(a.shape), list(b.shape)]
        out["dt"] = [a.dtype.name, b.dtype.name]
        # kept as they are: later events must not change them
        if a.size < 4000:
            self.kept.append((a, a.copy()))
            self.kept.append((b, b.copy()))
        del self.kept[:-40]

        def xs(v):
            return [root(z, ty, sc) for z in v.reshape(-1)]

        def ys(v):
            return xs(v) if "ax" in e else [min(int(z), 999999999) for z in v.reshape(-1)]
        a, b = np.asarray(a), np.asarray(b)
        m, nq = e.get("tile", 1), len(e["qs"])
        if m > 1 and nq > 0 and len(a) == len(b) == m * nq:
            # the rows of the first copy, and every other row that a later copy got
            alt = []
            for j in range(nq):
                A, B = a[j::nq].reshape(m, -1), b[j::nq].reshape(m, -1)
                odd = [i for i in range(1, m) if A[i].tobytes() != A[0].tobytes() or B[i].tobytes() != B[0].tobytes()] \
                    if A.tobytes() != A[0].tobytes() * m or B.tobytes() != B[0].tobytes() * m else []
                for i in odd[:64 - len(alt)]:
                    alt.append({"q": j, "x": xs(A[i]), "y": ys(B[i])})
            out["alt"] = alt
            a, b = a[:nq], b[:nq]
        out["x"], out["y"] = xs(a), ys(b)
        return out

    def threads(self, e):
        res = [[] for _ in e["thr"]]
        go = threading.Barrier(len(e["thr"]))

        def work(j):
            go.wait()
            for c in e["thr"][j]:
                x = dict(c)
                try:
                    x.update(self.query(c))
                except BaseException:
                    x["res"] = "panic"
                res[j].append(x)
        ts = [threading.Thread(target=work, args=(j,)) for j in range(len(res))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return {"res": "ok", "thr": res}


def churn():
    """free memory is handed out again and overwritten"""
    gc.collect()
    keep = []
    for size in list(range(8, 1025, 8)) + [4096, 65536, 160000, 320000, 500000]:
        for _ in range(6 if size <= 1024 else 3):
            keep.append(np.full(size // 8, 123456.75))
            keep.append(np.full(size // 4, 1234.5, dtype=np.float32))
    del keep
    gc.collect()


def main():
    s = Session()
    with open(sys.argv[2], "w") as f:
        for line in open(sys.argv[1]):
            if not line.strip():
                continue
            e = json.loads(line)
            out = dict(e)
            try:
                out.update(s.op(e))
            except SystemExit:
                raise
            except Exception as x:
                print("TOOL-ERROR", e["op"], repr(x))
                import traceback
                traceback.print_exc()
                sys.exit(3)
            except BaseException:
                out["res"] = "panic"
                if e["op"] == "tree":
                    s.trees.pop(e["s"], None)
            f.write(json.dumps(out) + "\n")
            f.flush()


main()
