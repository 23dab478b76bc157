"""P03: linear buckling factors = dense independent eigenproblem; histories of scaling and re-analysis."""
import itertools
import math
import numpy as np
from ..core import Family, canon, histories, short
from ..ref import frame as RF
from ..drv import fem as D
from .p01 import el, SUP, TEMPL


def mesh(nodes, topo, kinds, nel, secs):
    """split every beam member into nel elements; rods stay one element"""
    nodes = [list(map(float, n)) for n in nodes]
    els, members = [], []
    for (i, j), k, s in zip(topo, kinds, secs):
        if k != "beam":
            els.append(el(k, i, j, s))
            members.append([len(els) - 1])
            continue
        chain = [i]
        for t in range(1, nel):
            nodes.append([nodes[i][0] + (nodes[j][0] - nodes[i][0]) * t / nel, nodes[i][1] + (nodes[j][1] - nodes[i][1]) * t / nel])
            chain.append(len(nodes) - 1)
        chain.append(j)
        ids = []
        for a, b in zip(chain, chain[1:]):
            els.append(el("beam", a, b, s))
            ids.append(len(els) - 1)
        members.append(ids)
    return nodes, els, members


def check_buckling(ctx, f, m, sid, lid, k, key, **kw):
    try:
        lam, forces = RF.buckling(m, sid, lid)
        K, G, free, _ = RF.buckling_matrices(m, sid, lid)
    except (RF.Singular, np.linalg.LinAlgError):
        ctx.undefined += 1
        return False
    if len(lam) == 0 or len(free) <= k + 1:
        ctx.undefined += 1
        return True
    kk = min(k, len(lam))
    w, modes, _ = f.linear_buckling(lid, k=k)
    w = np.asarray(w, float)
    ctx.state(canon(lam[:kk], 5))
    ctx.eq(w[:kk], lam[:kk], key, f"load factors of case {lid}", rel=1e-5, abs_=1e-12, **kw)
    ctx.eq(np.asarray(f.load_factors, float)[:kk], lam[:kk], key + "-stored", "stored load factors", rel=1e-5, **kw)
    for q in range(kk):
        v = np.zeros(K.shape[0])
        for i, n in enumerate(f.nodes):
            vi = np.asarray(n.v[q], float)
            v[3 * i:3 * i + len(vi)] = vi
        Kf, Gf, vf = K[np.ix_(free, free)], G[np.ix_(free, free)], v[free]
        r = Kf @ vf + lam[q] * (Gf @ vf)
        # residual in the energy norm scaled by the mode's own strain energy
        Dg = np.sqrt(np.diag(Kf))
        e = np.linalg.norm(r / Dg) / max(1e-30, np.linalg.norm(Kf @ vf / Dg))
        ctx.expect(e < 1e-3 and np.linalg.norm(vf) > 0, key + "-mode", f"buckling mode {q} of case {lid} does not satisfy the eigenproblem (residual {e:.2g})", **kw)
    return True


def run_model(case, ctx):
    m = case["m"]
    f, _ = D.build(m, case["cases"])
    for s, l in case["cases"]:
        check_buckling(ctx, f, m, s, l, case["k"], "factors")


def models(deep):
    scales = [1e-2, 1.0, 40.0, 1000.0] if deep else [1.0, 1000.0]
    for name in ("portal", "gable", "tee", "tri", "braced", "crane", "under"):
        nodes, topo, sn = TEMPL[name]
        kindsets = [["beam"] * len(topo)]
        if name in ("braced", "under", "crane", "tri"):
            for r in range(len(topo)):
                ks = ["beam"] * len(topo)
                ks[r] = "rod"
                kindsets.append(ks)
        for kinds in kindsets:
            for secs in itertools.product("ab", repeat=min(3, len(topo))) if deep else ["ab" * 3, "ba" * 3]:
                secs = (list(secs) * 3)[:len(topo)]
                for nel in ((1, 2, 3, 4) if deep else (2, 3)):
                    for sup in (("fix", "fix"), ("pin", "pin"), ("fix", "pin"), ("pin", "rx")):
                        nn, els, _ = mesh(nodes, topo, kinds, nel, secs)
                        supp = [[1, n, SUP[s]] for n, s in zip(sn, sup)]
                        for sc in scales:
                            loads = []
                            for n in range(len(nodes)):
                                loads.append({"k": "P", "sid": 2, "n": n, "v": [0, -1e4, 0], "f": sc})
                                loads.append({"k": "P", "sid": 3, "n": n, "v": [2e3, -1e4 * (n + 1), 0], "f": sc})
                            hor = [i for i, e in enumerate(els) if e["t"] == "beam" and nn[e["n"][0]][1] == nn[e["n"][1]][1]]
                            for i in hor:
                                loads.append({"k": "L", "sid": 4, "el": i, "q": [-10, -10], "dir": "y", "cs": "global", "f": sc})
                            cases = [[1, 2], [1, 3]] + ([[1, 4]] if hor else [])
                            for k in ((1, 2, 4) if deep else (2,)):
                                yield {"m": {"nodes": nn, "els": els, "supp": supp, "loads": loads}, "cases": cases, "k": k}


OPS = ["b2", "b3", "x10", "x.1", "sec", "stat3", "statZ", "supp", "unsupp", "rev", "mv", "k1"]


def run_hist(case, ctx):
    nodes, topo, sn = TEMPL["portal"]
    nn, els, mem = mesh(nodes, topo, ["beam"] * 3, 2, "aba")
    m = {"nodes": nn, "els": els, "supp": [[1, 0, [0, 1]], [1, 3, [0, 1]]],
         "loads": [{"k": "P", "sid": 2, "n": 1, "v": [0, -1e5, 0], "f": 1.0}, {"k": "P", "sid": 2, "n": 2, "v": [0, -1e5, 0], "f": 1.0},
                   {"k": "P", "sid": 3, "n": 1, "v": [2e4, -3e5, 0], "f": 1.0}, {"k": "P", "sid": 3, "n": 2, "v": [0, -1e5, 0], "f": 1.0}]}
    f, loads = D.build(m, [[1, 2], [1, 3]])
    k = 4
    for op in case["ops"] + ["b2", "b3"]:
        if op in ("b2", "b3"):
            if not check_buckling(ctx, f, m, 1, int(op[1]), k, "after-history"):
                return
        elif op in ("x10", "x.1"):
            for d, l in zip(m["loads"], loads):
                d["f"] *= 10 if op == "x10" else 0.1
                l.f = d["f"]
        elif op == "rev":
            d, l = m["loads"][1], loads[1]
            d["v"] = [0, -d["v"][1], 0]
            l.v = list(d["v"])
        elif op == "sec":
            for e in mem[0]:
                m["els"][e].update(A=6000.0, I=60e6)
                f.elements[e].section.A = 6000.0
                f.elements[e].section.I[0] = 60e6
        elif op == "stat3":
            f.linear_statics(3, support_method="REM")
        elif op == "statZ":
            f.linear_statics(2, support_method="ZERO")
        elif op == "supp":
            m["supp"].append([1, 2, [0]])
            f.add_support(1, 2, [0])
        elif op == "unsupp":
            if len(m["supp"]) > 2:
                m["supp"].pop()
                f.supports.pop()
        elif op == "mv":
            m["nodes"][2] = [m["nodes"][2][0] + 500, m["nodes"][2][1] + 400]
            f.nodes[2].x, f.nodes[2].y = m["nodes"][2]
        elif op == "k1":
            k = 1 if k == 4 else 2


def families(tier):
    deep = tier == "thorough"
    d = 4 if deep else 3
    return [Family("models", lambda: models(deep), run_model, "topology x kinds x sections x mesh x supports x load scale", "7 topologies, <=4 elements per member"),
            Family("histories", lambda: ({"ops": w} for w in histories(OPS, d, lambda w, a: not (a == "unsupp" and "supp" not in w))), run_hist,
                   "all words over 12 edits/analyses, closed by buckling of both cases", f"length <= {d}")]
