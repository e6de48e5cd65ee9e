"""Falsified outcomes of recorded events: (kind, position, event) that no correct
implementation can have produced."""
import json


def falsify(r, lines):
    """one falsification of each kind that applies to this session"""
    out = {}
    order = list(range(len(lines)))
    r.shuffle(order)
    evs = [json.loads(x) for x in lines]
    live = {}
    before = []
    for e in evs:
        before.append(dict(live))
        if e["op"] in ("new", "tree"):
            live[e["s"]] = e
    for at in order:
        e = evs[at]
        if e.get("res") in ("panic", "crash", "hang"):
            continue
        mk = live_mode(before[at].get(e.get("s")))
        for kind, new in changes(r, e, mk, evs):
            out.setdefault(kind, (kind, at, json.dumps(new)))
    return list(out.values())


def live_mode(e):
    return e is None or not any(k in e for k in ("wild", "wide", "apart"))


def bump(r, v):
    if isinstance(v, list):
        v = list(v)
        j = r.randrange(len(v))
        v[j] += 1
        return v
    return v + 1


def beyond(r, v):
    if isinstance(v, list):
        v = list(v)
        v[r.randrange(len(v))] = 999999999
        return v
    return 999999999


def some(v):
    return isinstance(v, int) or (isinstance(v, list) and len(v) > 0)


def changes(r, e, exact, evs):
    o, res = e["op"], e.get("res")
    if o in ("q1", "qk", "batch", "axis") and res == "ok":
        for f in ("d", "a", "b"):
            if exact and some(e.get(f)):
                yield "%s: %s + 1" % (o, f), dict(e, **{f: bump(r, e[f])})
        if some(e.get("i")):
            yield o + ": index out of range", dict(e, i=beyond(r, e["i"]))
        if o in ("qk", "batch") and e.get("d") and e.get("i"):
            yield o + ": entry lost", dict(e, d=e["d"][:-1], i=e["i"][:-1])
        if isinstance(e.get("a"), list) and e["a"]:
            yield o + ": entry lost", dict(e, a=e["a"][:-1])
        if exact and isinstance(e.get("pos"), list) and e["pos"]:
            p = e["pos"]
            q = [bump(r, p[0])] + p[1:] if isinstance(p[0], list) else bump(r, p)
            yield o + ": position", dict(e, pos=q)
    if o in ("q1", "qk", "batch", "axis", "new", "box") and isinstance(res, str):
        if res == "ok":
            yield o + ": refused", dict(e, res="Invalid")
        elif o in ("new", "box"):
            yield o + ": accepted", dict(e, res="ok", size=1)
        elif res == "Invalid":
            yield o + ": accepted", dict(e, res="ok", d=[], i=[], a=[], b=[]) if o != "q1" else dict(e, res="ok", d=0, i=0)
            if "ept" in e:
                yield o + ": wrong point named", dict(e, ept=[["num", 123456]] * len(e["ept"]))
    if o == "new" and res == "ok" and "gen" not in e and "size" in e:
        yield "new: size", dict(e, size=e["size"] + 1)
    if o == "dump" and res == "ok" and exact:
        yield "dump: data replaced", dict(e, same=False)
        yield "dump: size", dict(e, size=e["size"] + 1)
        L = [j for j, x in enumerate(e["nodes"]) if x["k"] == "L" and x["pts"]]
        S = [j for j, x in enumerate(e["nodes"]) if x["k"] == "S"]
        if L:
            j = r.choice(L)
            x = dict(e["nodes"][j])
            x["pts"] = x["pts"][1:]
            yield "dump: point lost", dict(e, nodes=e["nodes"][:j] + [x] + e["nodes"][j + 1:])
            x = dict(e["nodes"][j])
            x["lo"] = [99999999] + x["lo"][1:]
            yield "dump: bound", dict(e, nodes=e["nodes"][:j] + [x] + e["nodes"][j + 1:])
        if S:
            j = r.choice(S)
            x = dict(e["nodes"][j])
            x["l"] = x["r"]
            yield "dump: child", dict(e, nodes=e["nodes"][:j] + [x] + e["nodes"][j + 1:])
    if o == "hd":
        for f in ("d", "tot", "a", "b"):
            yield "hd: " + f, dict(e, **{f: e[f] + 1})
    if o == "hs":
        yield "hs: d", dict(e, d=e["d"] + 1)
    if o == "hb":
        yield "hb: kept or replaced", dict(e, rep=not e["rep"])
        yield "hb: short, kept or replaced", dict(e, srep=not e["srep"], sret=not e["sret"])
    if o == "moms" and len(e["order"]) > 1:
        yield "moms: point twice", dict(e, order=[e["order"][1]] + e["order"][1:])
        yield "moms: empty right side", dict(e, nl=len(e["order"]))
    if o == "conc":
        j = r.randrange(len(e["thr"]))
        for i, c in enumerate(e["thr"][j]):
            if c.get("res") == "ok":
                t = [list(x) for x in e["thr"]]
                t[j][i] = dict(c, res="Invalid")
                yield "conc: refused", dict(e, thr=t)
                break
    if o == "work":
        j = r.randrange(len(e["calls"]))
        c = dict(e["calls"][j], subs=2000000000)
        yield "work: far too many distances", dict(e, calls=e["calls"][:j] + [c] + e["calls"][j + 1:])
    if o == "new" and "cmps" in e and res == "ok":
        yield "new: far too many comparisons", dict(e, cmps=2000000000)
    if o == "many":
        yield "many: one outcome differs", dict(e, differ=1, other=e["calls"][:1])
    if o in ("again", "remake"):
        yield o + ": bytes left", dict(e, grow=e["n"])
        if "refs" in e:
            yield o + ": reference left", dict(e, refs=1)
    # Python
    if o == "query" and res == "ok":
        if e["x"]:
            yield "query: distance + 1", dict(e, x=bump(r, e["x"]))
            if "ax" in e:
                yield "query: part + 1", dict(e, y=bump(r, e["y"]))
            else:
                yield "query: index out of range", dict(e, y=beyond(r, e["y"]))
        yield "query: shape", dict(e, shape=[e["shape"][0], [e["shape"][1][0] + 1] + e["shape"][1][1:]])
        yield "query: dtype", dict(e, dt=[e["dt"][0], "int64"])
        yield "query: exception", dict(e, res="exc")
    if o in ("query", "tree") and res == "exc":
        new = dict(e, res="ok", x=[], y=[], shape=[[0], [0]], dt=["float64", "uint64"])
        yield o + ": no exception", new
    if o == "tree" and res == "ok":
        yield "tree: exception", dict(e, res="exc")
    if o == "alive":
        yield "alive", dict(e, alive=not e["alive"])
    if o == "recheck":
        yield "results changed", dict(e, same=False)
