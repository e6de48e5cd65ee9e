"""What each check explores.  q is True for the quick tier."""
import concurrent.futures as cf

import gen
import vlib
from vlib import build_exec


def setup():
    build_exec()
    return 0


def sized(c, quick, thorough):
    return quick if c.quick else thorough


def enum(c, cfg, ops, qlo=0, qhi=0, every=1):
    rows = c.enumerate(cfg + ".cfg")
    if every == 1:
        c.exhaustive.append(cfg)
    return gen.enum_sessions(rows, ops, qlo, qhi, every, c.seed)


# design-level models of each property: (module, configuration, expected, quick?)
KS = [("KdSearch", "Seed", "violated", True), ("KdSearch", "Parent", "violated", True),
      ("KdSearch", "Slack", "violated", True), ("KdSearch", "Bound", "violated", False),
      ("KdSearch", "Alt", "ok", True), ("KdSearch", "Live", "ok", False),
      ("KdSearch", "RefineAlt", "ok", True), ("KdSearch", "Refine", "ok", False), ("KdSearch", "Refine2", "ok", False),
      ("KdSearch", "RefineSlack", "violated", False), ("Prune", "", "proved", False)]
MODELS = {
    "C01": [("KdSearch", "Nearest", "ok", True), ("KdSearch", "2", "ok", False), ("KdSearch", "3", "ok", False)] + KS,
    "C02": [("KdSearch", "2", "ok", True), ("KdSearch", "1", "ok", False), ("KdSearch", "5", "ok", False),
            ("Lemmas", "1", "ok", True), ("Lemmas", "2", "ok", True), ("Lemmas", "3", "ok", False)] + KS,
    "C03": [("KdSearch", "1p", "ok", True), ("KdSearch", "2p", "ok", True), ("KdSearch", "3p", "ok", False),
            ("KdSearch", "Sides", "violated", True), ("KdSearch", "Far", "violated", True),
            ("KdSearch", "Live", "ok", False), ("Prune", "", "proved", False)],
    "C04": [("KdSearch", "1p", "ok", True), ("KdSearch", "2p", "ok", True), ("KdSearch", "3p", "ok", False),
            ("KdSearch", "4p", "ok", False), ("KdSearch", "Fresh", "violated", True),
            ("KdSearch", "Sides", "violated", True), ("KdSearch", "Far", "violated", True),
            ("Lemmas", "1p", "ok", False), ("Lemmas", "2p", "ok", False), ("Lemmas", "2pBig", "ok", False),
            ("Prune", "", "proved", False)],
    "C05": [("Batch", "", "ok", True), ("Batch", "Row", "ok", True), ("Batch", "Big", "ok", True)]
           + [("Batch", x, "violated", True) for x in ("Shared", "Stale", "Nested", "Lost", "Place")]
           + [("BatchProof", "", "proved", False)],
    "C06": [("Batch", "", "ok", True), ("Batch", "Shared", "violated", True), ("Lemmas", "2", "ok", True),
            ("Lemmas", "3", "ok", False), ("Lemmas", "2p", "ok", False), ("BatchProof", "", "proved", False)],
    "C07": [("KdBuild", "Big", "ok", True), ("KdBuild", "Swapped", "violated", True), ("KdBuild", "1", "ok", False),
            ("BuildProof", "", "proved", False)],
    "C08": [("KdBuild", "2", "ok", True), ("KdBuild", "Racy", "violated", True), ("KdBuild", "NoJoin", "violated", True),
            ("KdBuild", "Swapped", "violated", True), ("KdBuild", "Live", "ok", False), ("KdBuild", "1", "ok", False),
            ("BuildProof", "", "proved", False)],
    "C09": [("Moms", "", "ok", True), ("Moms", "Big", "ok", True), ("KdBuild", "Big", "ok", False),
            ("MomsProof", "", "proved", False)]
           + [("Moms", x, "violated", True) for x in ("First", "Skip", "Under")],
    "C10": [("MCApi", "1", "ok", True), ("MCApi", "", "ok", False)],
    "C11": [("MCApi", "1", "ok", True), ("MCApi", "", "ok", False)],
    "C12": [("KdBuild", "Live", "ok", False), ("KdSearch", "Live", "ok", True), ("MCApi", "1", "ok", True)],
    "C13": [("Lemmas", "2", "ok", True), ("Lemmas", "2p", "ok", False)],
    "C14": [("MCApi", "1", "ok", True), ("MCApi", "", "ok", False), ("Batch", "Stale", "violated", True)],
    "C15": [("Lemmas", "1", "ok", True), ("Lemmas", "2", "ok", True), ("Lemmas", "3", "ok", False),
            ("Lemmas", "1p", "ok", False), ("Lemmas", "2p", "ok", False)],
    "C20": [("Memory", "", "ok", True), ("Memory", "Big", "ok", False)]
           + [("Memory", x, "violated", True) for x in ("Err", "Build", "End")],
    "C21": [("KdSearch", "Work", "ok", True), ("KdSearch", "WorkP", "ok", True), ("KdSearch", "Waste", "violated", True),
            ("KdSearch", "Every", "violated", True), ("KdSearch", "Work2", "ok", False), ("KdSearch", "Work2p", "ok", False)],
    "C19": [("Lemmas", "2", "ok", True), ("Lemmas", "3", "ok", False)],
}


def models(c):
    todo = [(m, m + x + ".cfg", e) for m, x, e, quick in MODELS.get(c.pid, []) if quick or not c.quick]
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        list(ex.map(lambda t: c.prove(t[0]) if t[2] == "proved"
                    else c.model(t[0], t[1], expect=t[2], workers=2, timeout=800), todo))


def api_histories(c, n, par=True):
    """call histories: every short one, and long random ones"""
    r = c.rng
    rows = c.enumerate("MCApiGen.cfg", module="MCApi")
    sim = c.enumerate("MCApiSim.cfg", module="MCApi",
                      extra=("-simulate", "num=%d" % n, "-depth", "25", "-seed", str(c.seed)))
    every = sized(c, 12, 1)
    if every == 1:
        c.exhaustive.append("MCApiGen")
    return gen.histories(r, rows, every, c.seed, par) + gen.histories(r, sim, 17, c.seed, par)


def C01(c):
    r = c.rng
    exe, dbg = c.build([("default", "release"), ("default", "debug")])
    b = [("enumerated 1-D", exe, enum(c, "Enum1", ("q1",), -1, 4)),
         ("enumerated 2-D", exe, enum(c, "Enum2x3", ("q1",), -1, 3)),
         ("small", exe, gen.c01(r, sized(c, 800, 12000))),
         ("checked", dbg, gen.c01(r, sized(c, 100, 2000))),
         ("near ties", exe, gen.near_ties(r, sized(c, 60, 1500), "1")),
         ("mid", exe, gen.mids(r, sized(c, 80, 800), "1")),
         ("wide", exe, gen.wide(r, sized(c, 80, 1500), "1")),
         ("big", exe, gen.big_trees(r, [(r.choice([4097, 10007, 20000]), sh, r.choice([-1, 3]), r.choice([1, 8, 32, 100]),
                                        r.choice([1, 2, 3])) for sh in ("uni", "blocks", "few")], 6, False)
          + gen.big_trees(r, [(r.choice([66000, 70001, 90000]), "all", r.choice([-1, 3]), r.choice([8, 32]), 2)], 3, False)
          + gen.big_leaf(r, 70001, ["q1"] * 3))]
    if not c.quick:
        b += [("enumerated 1-D, 5 points", exe, enum(c, "Enum1x5", ("q1",), -1, 5)),
              ("enumerated 3-D", exe, enum(c, "Enum3", ("q1",), -1, 2))]
    c.conform(b)


def C02(c):
    r = c.rng
    exe, dbg = c.build([("default", "release"), ("default", "debug")])
    b = [("enumerated 1-D", exe, enum(c, "Enum1", ("qk",), -1, 4)),
         ("enumerated 2-D", exe, enum(c, "Enum2x3", ("qk",), -1, 3, sized(c, 3, 1))),
         ("small", exe, gen.c02(r, sized(c, 700, 10000))),
         ("checked", dbg, gen.c02(r, sized(c, 100, 2000))),
         ("near ties", exe, gen.near_ties(r, sized(c, 60, 1500), "k")),
         ("mid", exe, gen.mids(r, sized(c, 80, 800), "k")),
         ("wide", exe, gen.wide(r, sized(c, 80, 1500), "k")),
         ("big", exe, gen.big_trees(r, [(r.choice([4097, 10007, 20000]), sh, r.choice([-1, 3]), r.choice([1, 8, 32, 100]),
                                        r.choice([1, 2, 3])) for sh in ("uni", "blocks", "few")], 6, False)
          + gen.big_trees(r, [(r.choice([66000, 70001, 90000]), "all", r.choice([-1, 3]), r.choice([8, 32]), 2)], 3, False)
          + gen.big_leaf(r, 70001, ["qk"] * 3) + gen.many_k(r, r.choice([67000, 70001]), r.choice([8, 32])))]
    if not c.quick:
        b += [("enumerated 1-D, 5 points", exe, enum(c, "Enum1x5", ("qk",), -1, 5)),
              ("enumerated 3-D", exe, enum(c, "Enum3", ("qk",), -1, 2))]
    c.conform(b)


def C03(c):
    r = c.rng
    exe, dbg = c.build([("default", "release"), ("default", "debug")])
    b = [("enumerated 1-D", exe, enum(c, "Enum1p", ("q1",))),
         ("enumerated 2-D", exe, enum(c, "Enum2x3p", ("q1",), 0, 0, sized(c, 3, 1))),
         ("enumerated 3-D", exe, enum(c, "Enum3p", ("q1",), 0, 0, sized(c, 3, 1))),
         ("small", exe, gen.c03(r, sized(c, 700, 10000))),
         ("checked", dbg, gen.c03(r, sized(c, 100, 2000))),
         ("near ties", exe, gen.near_ties(r, sized(c, 60, 1500), "p1")),
         ("wide", exe, gen.wide(r, sized(c, 80, 1500), "p1")),
         ("big", exe, gen.big_boxes(r, [(n, sh, r.choice([-1, 3]), r.choice([8, 32]), d)
                                        for n, sh, d in ((r.choice([5000, 20000]), "few", 3), (70001, "all", 2))])
          + gen.big_leaf(r, 70001, ["q1"] * 2, True)),
         ("mid", exe, gen.mids(r, sized(c, 80, 800), "p1"))]
    c.conform(b)


def C04(c):
    r = c.rng
    exe, dbg, sq = c.build([("default", "release"), ("default", "debug"), ("sq", "release")])
    b = [("enumerated 1-D", exe, enum(c, "Enum1p", ("qk",))),
         ("enumerated 2-D", exe, enum(c, "Enum2p", ("qk",))),
         ("enumerated 3-D", exe, enum(c, "Enum3p", ("qk",), 0, 0, sized(c, 5, 1))),
         ("small", exe, gen.c04(r, sized(c, 600, 8000))),
         ("checked", dbg, gen.c04(r, sized(c, 80, 1500))),
         ("near ties", exe, gen.near_ties(r, sized(c, 60, 1500), "pk")),
         ("wide", sq, gen.wide(r, sized(c, 80, 1500), "pk")),
         ("big", exe, gen.big_boxes(r, [(n, sh, r.choice([-1, 3]), r.choice([8, 32]), d)
                                        for n, sh, d in ((r.choice([5000, 20000]), "few", 3), (70001, "all", 2))])
          + gen.big_leaf(r, 70001, ["qk"] * 2, True)),
         ("mid", exe, gen.mids(r, sized(c, 60, 600), "pk"))]
    if not c.quick:
        b.append(("enumerated 2-D, 3 points", exe, enum(c, "Enum2x3p", ("qk",))))
    c.conform(b)


def C05(c):
    r = c.rng
    exe, dbg = c.build([("default", "release"), ("default", "debug")])
    c.conform([("enumerated 2-D", exe, enum(c, "Enum2", ("batch",), -1, 3)),
               ("enumerated 2-D periodic", exe, enum(c, "Enum2p", ("batch",))),
               ("small", exe, gen.c05(r, sized(c, 200, 3000), sized(c, (300, 500, 1000, 1025, 2500),
                                                                    (500, 1000, 1024, 2049, 5000, 20000, 70000)))),
               ("checked", dbg, gen.c05(r, sized(c, 30, 400))),
               ("near ties", exe, gen.near_ties(r, sized(c, 30, 500), "batch")),
               ("wide", exe, gen.wide(r, sized(c, 40, 500), "batch")),
               ("long lists", exe, gen.tiled(r, [(r.choice([20, 33, 41]), t + r.randrange(2), p, r.choice([64, 100, 200]))
                                                 for t, p in zip(sized(c, [60, 250, 600, 250, 600], [60, 250, 600, 2000] * 8),
                                                                 sized(c, [4, 8, r.choice(gen.TILEPOOLS), 100, 200],
                                                                       [r.choice(gen.TILEPOOLS) for _ in range(32)]))]
                                         + [(41, 1701, r.choice([2, 4, 8]), 64)])),
               ("big leaf", exe, gen.big_leaf(r, 70001, ["batch"] * 3)),
               ("mid", exe, gen.c05mid(r, sized(c, 24, 240)))])
    c.conform_miri("schedules", [gen.schedules(r, sized(c, 1, 3), False) for _ in range(sized(c, 8, 100))])


def C06(c):
    r = c.rng
    exe, idx = c.build([("default", "release"), ("idx", "release")])
    c.conform([("enumerated 2-D", exe, enum(c, "Enum2", ("axis",), -1, 3, sized(c, 2, 1))),
               ("enumerated 2-D periodic", idx, enum(c, "Enum2p", ("axis",), 0, 0, sized(c, 2, 1))),
               ("small", exe, gen.c06(r, sized(c, 200, 3000), sized(c, 14, 140))),
               ("near ties", exe, gen.near_ties(r, sized(c, 40, 600), "axis")),
               ("wide", idx, gen.wide(r, sized(c, 60, 800), "axis")),
               ("apart", idx, gen.apart(r, sized(c, 120, 2000))),
               ("long lists", idx, gen.tiled(r, [(19, t + r.randrange(2), r.choice(gen.TILEPOOLS), 64)
                                                 for t in sized(c, [60, 500], [60, 500, 2000] * 4)]
                                                + [(17, 4001, r.choice([2, 8]), 40)], "axis")),
               ("big leaf", exe, gen.big_leaf(r, 70001, ["axis"] * 3)),
               ("idx", idx, gen.c06(r, sized(c, 150, 2000), sized(c, 10, 100)))])
    if not c.quick:
        c.conform_miri("schedules", [gen.schedules(r, 3, False) for _ in range(60)])


def C07(c):
    r = c.rng
    exe, dbg = c.build([("default", "release"), ("default", "debug")])
    b = [("enumerated 1-D", exe, enum(c, "Enum1", ("dump",))),
         ("enumerated 2-D", exe, enum(c, "Enum2x3", ("dump",))),
         ("small", exe, gen.c07(r, sized(c, 600, 8000), sized(c, 80, 800))),
         ("checked", dbg, gen.c07(r, sized(c, 100, 1000), 10)),
         ("big", exe, gen.big_trees(r, [(r.choice([10007, 30000, 99999]), sh, -1, r.choice([8, 32, 100]), r.choice([1, 2, 3]))
                                        for sh in ("uni", "few", "sorted")], 1))]
    if not c.quick:
        b.append(("enumerated 1-D, 5 points", exe, enum(c, "Enum1x5", ("dump",))))
    c.conform(b)


def C08(c):
    r = c.rng
    exe, dbg = c.build([("default", "release"), ("default", "debug")])
    c.conform([("small", exe, gen.c08(r, sized(c, 250, 4000), sized(c, 40, 400), sized(c, 40, 800))),
               ("checked", dbg, gen.c08(r, sized(c, 40, 400), 4, 4)),
               ("big", exe, gen.big_trees(r, [(r.choice([10007, 30000]), sh, r.choice([1, 2, 4, 6]), r.choice([8, 32]), r.choice([2, 3]))
                                              for sh in ("uni", "few")], 2)
                + gen.big_trees(r, [(100003, "few", 3, 64, 2), (r.choice([20011, 24001]), "all", r.choice([4, 5]), 1, 2)], 1))])
    c.conform_miri("schedules", [gen.schedules(r, sized(c, 2, 3)) for _ in range(sized(c, 24, 200))])


def C09(c):
    r = c.rng
    exe, dbg = c.build([("default", "release"), ("default", "debug")])
    sizes = sized(c, [99999, 100000, 123457], [99999, 100000, 100001, 130001, 200000, 400003])
    trees = [(100000, "few", -1, 32, 2), (100001, "equal", -1, 16, 2), (100007, "uni", 2, 32, 3),
             (120000, "outlier", -1, 32, 1), (111111, "blocks", -1, 64, 2)]
    if not c.quick:
        trees += [(n, sh, p, leaf, d) for n in (100000, 250001) for sh in gen.BIG_SHAPES
                  for p, leaf, d in [(r.choice([-1, 1, 4]), r.choice([1, 10, 32, 1000]), r.choice([1, 2, 3]))]]
    c.conform([("small", exe, gen.moms_small(r, sized(c, 300, 3000))),
               ("moms", exe, gen.moms_calls(r, sizes, gen.BIG_SHAPES)),
               ("checked", dbg, gen.moms_calls(r, [100000], ["uni", "few", "two"])),
               ("trees", exe, gen.big_trees(r, trees))], xmx="3500m")


def C10(c):
    r = c.rng
    exe, dbg, ser = c.build([("default", "release"), ("default", "debug"), ("ser", "release")])
    c.conform([("histories", exe, api_histories(c, sized(c, 60, 600))),
               ("small", exe, gen.c10(r, sized(c, 300, 5000), sized(c, (1000, 5000, 30000, 130000), (1000, 5000, 40000, 99999, 150000, 300000)))),
               ("checked", dbg, gen.c10(r, sized(c, 80, 1000), (2000,))),
               ("serial", ser, gen.c10(r, sized(c, 100, 1000), (2000,), par=False)),
               ("any scale", exe, gen.wild(r, sized(c, 80, 1000)))])


def C11(c):
    r = c.rng
    exe, dbg = c.build([("default", "release"), ("default", "debug")])
    c.conform([("histories", exe, api_histories(c, sized(c, 60, 600))),
               ("small", exe, gen.c11(r, sized(c, 600, 8000))),
               ("boxed later", exe, gen.boxed_later(r, sized(c, 100, 1500))),
               ("checked", dbg, gen.c11(r, sized(c, 100, 1000)))])


def C12(c):
    r = c.rng
    exe, dbg, ser = c.build([("default", "release"), ("default", "debug"), ("ser", "debug")])
    c.conform([("release", exe, gen.c12(r, sized(c, 250, 4000))),
               ("checked", dbg, gen.c12(r, sized(c, 200, 3000))),
               ("serial", ser, gen.c12(r, sized(c, 100, 1000), par=False)),
               ("any scale", exe, gen.wild(r, sized(c, 200, 3000))),
               ("any scale, checked", dbg, gen.wild(r, sized(c, 60, 1000))),
               ("any scale, serial", ser, gen.wild(r, sized(c, 30, 500), par=False)),
               ("deep", exe, gen.deep(r, sized(c, 1, 6)))])


def C13(c):
    r = c.rng
    names = [f for f in vlib.FEATURES if f not in ("count", "work")]
    exes = c.build([(f, "release") for f in names], lite=True)
    b = []
    # the same problems under every configuration
    state = r.getstate()
    for f, exe in zip(names, exes):
        fs = vlib.FEATURES[f].split(",")
        r.setstate(state)
        par = "par" in fs and "nopos" in fs
        b.append((f, exe, gen.c13(r, sized(c, 40, 500), par, par)))
    c.conform(b)


def C14(c):
    r = c.rng
    exe, dbg = c.build([("default", "release"), ("default", "debug")])
    c.conform([("call histories", exe, api_histories(c, sized(c, 120, 1500))),
               ("histories", exe, gen.c14(r, sized(c, 200, 3000))),
               ("rebuilt", exe, gen.rebuilt(r, sized(c, 150, 3000))),
               ("boxed later", exe, gen.boxed_later(r, sized(c, 120, 2000))),
               ("twins", exe, gen.twins(r, sized(c, 100, 2000))),
               ("many calls", exe, gen.many(r, sized(c, 4, 12), sized(c, 70000, 200000))),
               ("checked", dbg, gen.c14(r, sized(c, 40, 400)))])


def C15(c):
    r = c.rng
    exe, sq = c.build([("default", "release"), ("sq", "release")])
    c.conform([("frames", exe, gen.c15(r, sized(c, 500, 6000))),
               ("apart", exe, gen.apart(r, sized(c, 120, 2000), False)),
               ("near ties", exe, [x for k in ("1", "k", "p1", "pk", "batch", "axis")
                                   for x in gen.near_ties(r, sized(c, 20, 300), k)]),
               ("wide", sq, [x for k in ("1", "k", "p1", "pk", "batch")
                             for x in gen.wide(r, sized(c, 30, 400), k)]),
               ("squared", sq, gen.c15(r, sized(c, 200, 2000)))])


def C19(c):
    r = c.rng
    exe, dbg = c.build([("default", "release"), ("default", "debug")])
    c.conform([("release", exe, gen.c19(r, sized(c, 500, 6000))),
               ("checked", dbg, gen.c19(r, sized(c, 100, 1000)))])


def C16(c):
    r = c.rng
    run, env = vlib.build_py()
    c.conform([("arrays", run, gen.c16(r, sized(c, 250, 4000), sized(c, (1000, 5000), (1000, 5000, 20000)),
                                         sized(c, [(17, 4001), (41, 101), (33, 1001)], [(17, 4001), (17, 4000), (41, 101), (9, 8001), (70, 1000), (33, 1001)] * 3)))],
              env=env, module="PyTrace", cfg="PyTrace.cfg")


def C17(c):
    r = c.rng
    run, env = vlib.build_py()
    c.conform([("misuse", run, gen.c17(r, sized(c, 400, 5000)))], env=env, module="PyTrace", cfg="PyTrace.cfg")


def C18(c):
    r = c.rng
    run, env = vlib.build_py()
    c.model("MCPyLife", "MCPyLife.cfg")
    c.model("MCPyLife", "MCPyLifeBorrow.cfg", expect="violated")
    rows = c.enumerate("MCPyLifeGen.cfg", module="MCPyLife")
    c.exhaustive.append("MCPyLifeGen")
    sim = c.enumerate("MCPyLifeSim.cfg", module="MCPyLife",
                      extra=("-simulate", "num=%d" % sized(c, 80, 1500), "-depth", "20", "-seed", str(c.seed)))
    c.conform([("histories", run, gen.c18_from(r, rows * sized(c, 2, 10) + sim))],
              env=env, module="PyTrace", cfg="PyTrace.cfg")


def C20(c):
    r = c.rng
    exe = c.build([("count", "release")])[0]
    run, env = vlib.build_py()
    c.conform([("repeated", exe, gen.c20(r, sized(c, 60, 800), [(r.choice([99999, 100001]), p)
                                                                 for p in sized(c, [-1, r.choice([1, 2, 3])], [-1, 0, 1, 2, 3, 5])]))])
    c.conform([("repeated in Python", run, gen.c20_py(r, sized(c, 40, 500)))], env=env, module="PyTrace", cfg="PyTrace.cfg")


def C21(c):
    r = c.rng
    exe = c.build([("work", "release")], lite=True)[0]
    shapes = gen.BIG_SHAPES
    c.conform([("counted", exe, gen.c21(r, sized(c, 120, 1500), sized(c, [300, 700, 1500, 3000], [300, 700, 1500, 3000, 8000]),
                                        [(r.choice(sized(c, [3000, 20000], [3000, 20000, 90000])), sh) for sh in shapes * sized(c, 2, 6)]
                                        + [(r.choice([100000, 120001]), sh) for sh in (shapes if not c.quick else r.sample(shapes, 4))]))])
