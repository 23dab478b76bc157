"""P30: second order analysis = exact beam-column theory (compressed members) on every small frame model."""
import itertools
import math
import numpy as np
from ..core import Family, canon, histories
from ..ref import frame as RF
from ..ref import beamcolumn as BC
from ..drv import fem as D
from .p01 import el, SUP, TEMPL, E, SEC


def observe2(f, lid):
    U = np.zeros((len(f.nodes), 3))
    for i, n in enumerate(f.nodes):
        u = np.array(n.u2[lid], float)
        U[i, :len(u)] = u
    return U, [{k: [float(np.asarray(v).ravel()[0]) for v in e.fint2[lid][k]] for k in ("fx", "fz", "my")} for e in f.elements]


def span(m):
    return max(math.dist(a, b) for a, b in itertools.combinations(m["nodes"], 2))


def run(case, ctx):
    m, cases = case["m"], case["cases"]
    f, _ = D.build(m, cases)
    for s, l in cases:
        try:
            want = BC.solve(m, s, l)
            first = RF.solve(m, s, l)
        except RF.Singular:
            ctx.undefined += 1
            continue
        for meth in case["meth"]:
            if meth is None:
                f.second_order_analysis(l)
            else:
                f.second_order_analysis(l, support_method=meth)
            ctx.state((meth, canon(want[0], 4)))
            D.compare(ctx, observe2(f, l), want, f"second-{meth}", f"second order, load case {l}", 1e-6, span(m))
        # the first order results are still those of linear statics
        D.compare(ctx, D.observe(f, l), first, "first", f"first order results, load case {l}", 2e-6, span(m))


LEV = [-0.5, 0.0, 1e-12, 1e-8, 1e-5, 1e-3, 0.01, 0.1, 0.3, 0.6, 0.9]


def members(deep):
    """one straight column of 1-3 elements: orientation x supports x release x axial level x lateral load"""
    dirs = [(0, 4200), (4200, 0), (3150, 4200), (-4200, 3150), (0, -5100)]
    if not deep:
        dirs = dirs[:4]
    rels = [(), (2,), (5,), (2, 5)]
    for nel, (dx, dy) in itertools.product((1, 2, 3) if deep else (1, 2), dirs):
        nodes = [[500 + dx * i / nel, 250 + dy * i / nel] for i in range(nel + 1)]
        L = math.hypot(dx, dy)
        c, s = dx / L, dy / L
        for (s1, s2) in itertools.product(("fix", "pin"), ("free", "roll", "guide")):
            # supports of the far end are given in global axes: only for axis-parallel members
            if s2 != "free" and min(abs(dx), abs(dy)) > 0:
                continue
            if s1 == "pin" and s2 == "free":
                continue
            lat = 0 if abs(dx) < 1 else 1
            far = {"free": [], "roll": [lat], "guide": [lat, 2]}[s2]
            for rel in rels:
                els = [el("beam", i, i + 1, "a" if i % 2 == 0 else "b") for i in range(nel)]
                els[0]["rel"] = list(rel)
                supp = [[1, 0, SUP[s1]]] + ([[1, nel, far]] if far else [])
                Pe = math.pi**2 * E * SEC["b"][1] / L**2
                loads, cases = [], []
                for q, lev in enumerate(LEV):
                    for t in range(4):
                        sid = 10 + 4 * q + t
                        loads.append({"k": "P", "sid": sid, "n": nel, "v": [-c * lev * Pe, -s * lev * Pe, 0], "f": 1.0})
                        if t == 0:
                            for i in range(nel):
                                loads.append({"k": "L", "sid": sid, "el": i, "q": [-3.0, -3.0], "dir": "y", "cs": "local", "f": 1.5})
                        elif t == 1 and min(abs(dx), abs(dy)) == 0:
                            loads.append({"k": "L", "sid": sid, "el": 0, "q": [2.0, 2.0], "dir": "xy"[lat], "cs": "global", "f": 1.0})
                            loads.append({"k": "L", "sid": sid, "el": 0, "q": [0.5, 0.5], "dir": "y", "cs": "local", "f": -1.0})
                        elif t == 2:
                            loads.append({"k": "P", "sid": sid, "n": nel - 1 or nel, "v": [-s * 2e3, c * 2e3, 1e6], "f": 1.2})
                        elif t == 3:
                            loads.append({"k": "P", "sid": sid, "n": nel, "v": [0, 0, -2e6], "f": 1.0})
                        else:
                            continue
                        cases.append([1, sid])
                yield {"m": {"nodes": nodes, "els": els, "supp": supp, "loads": loads}, "cases": cases, "meth": [None, "REM"]}


REL = [(), (2,), (5,), (2, 5)]


def frames(deep):
    for name in ("portal", "gable", "tee", "tri", "braced", "under", "crane"):
        nodes, topo, sn = TEMPL[name]
        ne = len(topo)
        pool = REL if ne <= 4 else REL[:1] + REL[3:]
        for assign in itertools.product(range(len(pool)), repeat=ne):
            els = [el("beam", i, j, "ab"[e % 2], pool[a]) for e, (a, (i, j)) in enumerate(zip(assign, topo))]
            for sup in (("fix", "fix"), ("pin", "pin"), ("pin", "rx"), ("fix", "ry")):
                if len(sn) == 1 and sup[0] != "fix":
                    continue
                supp = [[1, n, SUP[s]] for n, s in zip(sn, sup)]
                base = []
                for n in range(len(nodes)):
                    base.append({"k": "P", "n": n, "v": [1.0 * (n + 1), -20.0, 0], "f": 1.0})
                    base.append({"k": "P", "n": n, "v": [3.0, -4.0 * (n + 1), 500.0], "f": 2.0})
                for e, (i, j) in enumerate(topo):
                    base.append({"k": "L", "el": e, "q": [-0.004, -0.004], "dir": "y", "cs": "local", "f": 1.35})
                    if nodes[i][1] == nodes[j][1]:
                        base.append({"k": "L", "el": e, "q": [-0.01, -0.01], "dir": "y", "cs": "global", "f": 1.0})
                    elif nodes[i][0] == nodes[j][0]:
                        base.append({"k": "L", "el": e, "q": [0.003, 0.003], "dir": "x", "cs": "global", "f": 1.0})
                m = {"nodes": nodes, "els": els, "supp": supp, "loads": [dict(b, sid=2) for b in base]}
                try:
                    lam, _ = RF.buckling(m, 1, 2)
                except (RF.Singular, np.linalg.LinAlgError):
                    continue
                if not len(lam):
                    continue
                loads, cases = [], []
                for i, lev in enumerate((0.02, 0.3, 0.75) if not deep else (1e-4, 0.02, 0.15, 0.3, 0.5, 0.75, 0.9)):
                    sc = float(f"{lev * lam[0]:.6g}")
                    if sc > 1e5:
                        continue
                    loads += [dict(b, sid=3 + i, f=b["f"] * sc) for b in base]
                    cases.append([1, 3 + i])
                if cases:
                    yield {"m": dict(m, loads=loads), "cases": cases, "meth": ["REM", "ZERO"]}


OPS = ["n2", "n3", "z2", "z3", "s2", "x2", "x.5", "sec", "rel", "supp", "mv"]


def run_hist(case, ctx):
    nodes, topo, sn = TEMPL["portal"]
    els = [el("beam", i, j, "a") for i, j in topo]
    m = {"nodes": [list(n) for n in nodes], "els": els, "supp": [[1, 0, [0, 1, 2]], [1, 3, [0, 1]], [5, 0, [0, 1]], [5, 3, [0, 1, 2]]],
         "loads": [{"k": "P", "sid": 2, "n": 1, "v": [2e3, -1.5e5, 0], "f": 1.0}, {"k": "P", "sid": 2, "n": 2, "v": [1e3, -1e5, 0], "f": 1.0},
                   {"k": "L", "sid": 2, "el": 1, "q": [-4.0, -4.0], "dir": "y", "cs": "global", "f": 1.0},
                   {"k": "L", "sid": 3, "el": 0, "q": [1.0, 1.0], "dir": "x", "cs": "global", "f": 1.0},
                   {"k": "P", "sid": 3, "n": 2, "v": [0, -2e5, 1e6], "f": 1.0}]}
    cases = {2: 1, 3: 5}
    f, loads = D.build(m, [[1, 2], [5, 3]])
    for op in case["ops"] + ["z2", "n3"]:
        if op[0] in "nz" and op[1:] in ("2", "3"):
            l = int(op[1])
            try:
                want = BC.solve(m, cases[l], l)
            except RF.Singular:
                ctx.undefined += 1
                return
            f.second_order_analysis(l, support_method="REM" if op[0] == "n" else "ZERO")
            ctx.state(canon(want[0], 4))
            D.compare(ctx, observe2(f, l), want, "history", f"second order results of case {l} after {case['ops']}", 1e-6, span(m))
        elif op == "s2":
            f.linear_statics([2, 3] if m["supp"] is None else 2, support_method="REM")
        elif op in ("x2", "x.5"):
            for d, lo in zip(m["loads"], loads):
                d["f"] *= 1.5 if op == "x2" else 0.5
                lo.f = d["f"]
        elif op == "sec":
            a, i = SEC["b"]
            m["els"][0].update(A=a, I=2 * i)
            from metku.framefem.framefem import BeamSection
            f.elements[0].section = BeamSection(a, 2 * i)
        elif op == "rel":
            if 2 not in (m["els"][1].get("rel") or []):
                m["els"][1]["rel"] = (m["els"][1].get("rel") or []) + [2]
                f.add_release(1, [2])
        elif op == "supp":
            m["supp"].append([1, 2, [0]])
            f.add_support(1, 2, [0])
        elif op == "mv":
            m["nodes"][1][1] += 0
            m["nodes"][3][1] -= 500
            f.nodes[3].y -= 500


def hists(deep):
    for w in histories(OPS, 3 if deep else 2):
        yield {"ops": list(w)}


def families(tier):
    deep = tier == "thorough"
    return [
        Family("member", lambda: members(deep), run, "orientation x supports x releases x axial level x lateral load x method x elements per member", "4-5 orientations, 6 support pairs, 4 release sets, 11 axial levels (tension .. 0.9 of the Euler load, incl. vanishing ones), 4 load types, 1-3 elements"),
        Family("frames", lambda: frames(deep), run, "every assignment of end releases to 7 topologies x supports x load level relative to the critical load", "<= 5 elements, 4 release sets per element (2 for the 5-element frames), 4 support sets, 3-7 levels, 2 methods"),
        Family("history", lambda: hists(deep), run_hist, "all words over analyses and model changes", f"depth {3 if deep else 2} over 11 operations"),
    ]
