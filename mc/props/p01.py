"""P01: linear statics = exact beam theory over all small models."""
import itertools
import math
from ..core import Family, canon
from ..ref import frame as RF
from ..drv import fem as D

E = 210e3
SEC = {"a": (3000.0, 8.0e6), "b": (1200.0, 2.5e6)}
SUP = {"fix": [0, 1, 2], "pin": [0, 1], "rx": [1], "ry": [0], "gx": [1, 2], "gy": [0, 2], "free": []}


def el(t, i, j, s="a", rel=(), rs=None, k=None):
    A, I = SEC[s]
    d = {"t": t, "n": [i, j]}
    if t == "spring":
        d["k"] = k or 400.0
        return d
    d.update(E=E, A=A)
    if t != "rod":
        d["I"] = I
        if rel:
            d["rel"] = list(rel)
    if t == "semi":
        d["rs"] = rs or [5e8, 1e9]
    return d


def run(case, ctx):
    m = case["m"]
    cases = case["cases"]
    meth = case.get("method", "REM")
    try:
        want = {l: RF.solve(m, s, l) for s, l in cases}
    except RF.Singular:
        ctx.undefined += 1
        ctx.state("singular")
        return
    f, _ = D.build(m, cases)
    L = max(math.dist(a, b) for a, b in itertools.combinations(m["nodes"], 2))
    # joints with near-hinge / near-rigid stiffness are slightly worse conditioned
    rel = case.get("rel", 2e-6)
    if case.get("list"):
        f.linear_statics([l for _, l in cases], support_method=meth)
        for s, l in cases:
            ctx.state((l, canon(want[l][0], 4)))
            D.compare(ctx, D.observe(f, l), want[l], "list-" + meth, f"load case {l}", rel, L)
    else:
        for s, l in cases:
            f.linear_statics(l, support_method=meth)
            got = D.observe(f, l)
            ctx.state((meth, canon(got[0], 4), canon([g["my"] for g in got[1]], 4)))
            D.compare(ctx, got, want[l], "single-" + meth, f"load case {l}", rel, L)
        # all results together once more: analysing a case must not disturb the others
        for s, l in cases:
            D.compare(ctx, D.observe(f, l), want[l], "after-all-" + meth, f"load case {l} after all analyses", rel, L)


LINE = [("L", [-4.0, -4.0], "y", "global"), ("L", [-4.0, 2.0], "y", "global"), ("L", [3.0, 3.0], "x", "global"),
        ("L", [1.0, 5.0], "x", "global"), ("L", [-2.0, -2.0], "y", "local"), ("L", [0.0, -6.0], "y", "local"),
        ("L", [2.0, 2.0], "x", "local"), ("L", [5.0, 1.0], "x", "local")]


def mkload(l, elem, f=1.0, sid=2):
    return {"k": "L", "sid": sid, "el": elem, "q": l[1], "dir": l[2], "cs": l[3], "f": f}


def single_cases(deep):
    """one straight member of one or two elements, every orientation, support pair, release, load"""
    dirs = [(4000, 0), (0, 4000), (3000, 4000), (-4000, 3000), (-4000, 0), (0, -4000), (4800, -1400)]
    if not deep:
        dirs = dirs[:4] + dirs[6:]
    rels = [(), (2,), (5,), (2, 5), (0,), (4,), (5, 2)]
    kinds = ["beam"] + (["semi"] if True else [])
    for nel in (1, 2):
        for (dx, dy) in dirs:
            nodes = [[500 + dx * i / nel, 250 + dy * i / nel] for i in range(nel + 1)]
            for s1, s2 in itertools.product(SUP, SUP):
                if not (s1 in ("fix", "pin", "gx", "gy") or s2 in ("fix", "pin", "gx", "gy")):
                    continue
                for kind in kinds:
                    for rel in (rels if kind == "beam" else [()]):
                        rsl = [None] if kind == "beam" else [[3e8, 2e9], [0.0, math.inf], [math.inf, 1e9]]
                        for rs in rsl:
                            els = [el("beam", i, i + 1, "a") for i in range(nel)]
                            els[0] = el(kind, 0, 1, "b", rel, rs)
                            supp = [[1, 0, SUP[s1]], [1, nel, SUP[s2]]]
                            supp = [s for s in supp if s[2]]
                            # each load type is its own load case: one analysis per load
                            loads, cases = [], []
                            for k, ld in enumerate(LINE):
                                if nel == 2 and k in (1, 4, 6) and not deep:
                                    continue
                                loads.append(mkload(ld, 0, 1.0 if k % 2 == 0 else 1.5, 10 + k))
                                cases.append([1, 10 + k])
                            loads.append({"k": "P", "sid": 30, "n": nel, "v": [1e4, -2e4, 3e6], "f": 1.0})
                            loads.append({"k": "P", "sid": 31, "n": nel - 1, "v": [-5e3, 1e4, 1e6], "f": 0.5})
                            cases += [[1, 30], [1, 31]]
                            for meth in ("REM", "ZERO"):
                                yield {"m": {"nodes": nodes, "els": els, "supp": supp, "loads": loads},
                                       "cases": cases, "method": meth, "list": meth == "ZERO" and nel == 2,
                                       "rel": 2e-5 if kind == "semi" else 2e-6}


TEMPL = {
    "portal": ([[0, 0], [0, 4000], [6000, 4000], [6000, 0]], [(0, 1), (1, 2), (2, 3)], [0, 3]),
    "gable": ([[0, 0], [0, 4000], [3000, 5250], [6000, 4000], [6000, 0]], [(0, 1), (1, 2), (2, 3), (3, 4)], [0, 4]),
    "tee": ([[0, 0], [4000, 0], [7000, 4000], [4000, -3000]], [(0, 1), (1, 2), (1, 3)], [0, 3]),
    "tri": ([[0, 0], [6000, 0], [3000, 4000]], [(0, 1), (1, 2), (2, 0)], [0, 1]),
    "braced": ([[0, 0], [0, 3000], [4000, 3000], [4000, 0]], [(0, 1), (1, 2), (3, 2), (0, 2)], [0, 3]),
    "under": ([[0, 0], [3000, 0], [6000, 0], [3000, -1250]], [(0, 1), (1, 2), (1, 3), (0, 3), (3, 2)], [0, 2]),
    "crane": ([[0, 0], [0, 4000], [3000, 8000], [0, 8000]], [(0, 1), (1, 3), (1, 2), (3, 2)], [0]),
}
KINDS = [("beam", ()), ("beam", (2,)), ("beam", (5,)), ("beam", (2, 5)), ("rod", ()), ("spring", ()), ("semi", ())]


def frame_cases(deep):
    """every assignment of element kinds to every template, supports and three load cases"""
    for name, (nodes, topo, sn) in TEMPL.items():
        ne = len(topo)
        kinds = KINDS if (deep and ne <= 4) else [k for k in KINDS if k[0] != "semi"] if ne <= 4 else KINDS[:1] + KINDS[3:6]
        for assign in itertools.product(range(len(kinds)), repeat=ne):
            els = []
            for e, (ki, (i, j)) in enumerate(zip(assign, topo)):
                t, rel = kinds[ki]
                els.append(el(t, i, j, "a" if e % 2 == 0 else "b", rel))
            for sup in (("fix", "fix"), ("pin", "pin"), ("pin", "rx"), ("fix", "ry")):
                supp = [[1, n, SUP[s]] for n, s in zip(sn, sup)]
                if len(sn) == 1 and sup[0] != "fix":
                    continue
                loads = []
                for n in range(len(nodes)):
                    loads.append({"k": "P", "sid": 2, "n": n, "v": [1e3 * (n + 1), -2e3 * (n + 1), 0], "f": 1.0})
                loads.append({"k": "P", "sid": 3, "n": 1, "v": [0, 0, 2e6], "f": 1.0})
                loads.append({"k": "P", "sid": 3, "n": 2, "v": [3e3, 0, -1e6], "f": 2.0})
                for e in range(ne):
                    if els[e]["t"] in ("beam", "semi", "rod"):
                        loads.append(mkload(LINE[(e * 3 + 1) % 8], e, 1.0, 4))
                        loads.append(mkload(LINE[(e * 5) % 8], e, 0.5, 4))
                yield {"m": {"nodes": nodes, "els": els, "supp": supp, "loads": loads},
                       "cases": [[1, 2], [1, 3], [1, 4]], "method": "REM", "list": sum(assign) % 2 == 1,
                       "rel": 2e-5 if any(x["t"] == "semi" for x in els) else 2e-6}


def superpose_cases(deep):
    """every distribution of a set of loads over {absent, case 2, case 3}, two support cases"""
    nodes, topo, sn = TEMPL["portal"]
    pool = [{"k": "P", "n": 1, "v": [1e4, 0, 0], "f": 1.0}, {"k": "P", "n": 1, "v": [2e3, -3e3, 1e6], "f": 1.5},
            {"k": "L", "el": 1, "q": [-5, -5], "dir": "y", "cs": "global", "f": 1.0},
            {"k": "L", "el": 1, "q": [-1, -3], "dir": "y", "cs": "local", "f": 1.35},
            {"k": "L", "el": 0, "q": [2, 2], "dir": "x", "cs": "global", "f": 0.0},
            {"k": "L", "el": 1, "q": [1, 2], "dir": "x", "cs": "global", "f": -1.0}]
    if not deep:
        pool = pool[:4] + pool[5:]
    els = [el("beam", i, j, "a") for i, j in topo]
    els[1]["rel"] = [2]
    for asg in itertools.product((0, 2, 3), repeat=len(pool)):
        loads = [dict(p, sid=a) for p, a in zip(pool, asg) if a]
        for supp in ([[1, 0, [0, 1, 2]], [1, 3, [0, 1]]],
                     [[1, 0, [0, 1, 2]], [1, 3, [0, 1]], [5, 0, [0, 1]], [5, 3, [0, 1, 2]]]):
            for meth in ("REM", "ZERO"):
                for lst in (False, True):
                    two = len(supp) == 4
                    if two and lst:
                        continue  # one analysis call has one support set
                    yield {"m": {"nodes": nodes, "els": els, "supp": supp, "loads": loads},
                           "cases": [[1, 2], [5 if two else 1, 3]], "method": meth, "list": lst}


def families(tier):
    deep = tier == "thorough"
    return [
        Family("member", lambda: single_cases(deep), run, "orientation x support pair x release/joint stiffness x load x method x 1-2 elements", "7x7 support pairs, 5-7 orientations, 10 releases/joints, 10 loads"),
        Family("frames", lambda: frame_cases(deep), run, "every assignment of element kinds to 7 topologies x supports", "<= 5 elements, 6-7 element kinds, 4 support sets, 3 load cases"),
        Family("superpose", lambda: superpose_cases(deep), run, "every distribution of loads over load cases", "5-6 loads x 3 destinations x 2 support systems x 2 methods x list/single call"),
    ]
