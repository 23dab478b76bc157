"""P28: sizing problems of trusses represent the truss they are made for.

The reference knows the truss only from its description (coordinates, bars, supports, loads): its
equilibrium matrix, its elastic response and the smallest total volume are computed here.
"""
import itertools
import math
import numpy as np
from scipy import optimize as so
from ..core import Family, histories
from ..ref import ec3
from ..drv import sections as SEC

E, FY, RHO = 210e3, 355.0, 7850e-9

TR = {
    "two": ([[0, 0], [2000, 0], [800, 1500]], [[0, 2], [1, 2]], {0: "xy", 1: "xy"}),
    "three": ([[0, 0], [-1000, 1000], [0, 1000], [1732, 1000]], [[0, 1], [0, 2], [0, 3]], {1: "xy", 2: "xy", 3: "xy"}),
    "fan": ([[0, 0], [-1500, 800], [-600, 1400], [700, 1300], [1600, 500]], [[0, 1], [0, 2], [0, 3], [0, 4]], {1: "xy", 2: "xy", 3: "xy", 4: "xy"}),
    "roller": ([[0, 0], [2600, 0], [1000, 1400]], [[0, 1], [1, 2], [2, 0]], {0: "xy", 1: "y"}),
    "bracket": ([[0, 0], [0, 1500], [2000, 1400], [1900, 0]], [[1, 2], [0, 2], [0, 3], [2, 3]], {0: "xy", 1: "xy"}),
    "panel": ([[0, 0], [0, 1500], [2000, 1400], [1900, 0]], [[1, 2], [0, 2], [0, 3], [3, 2], [1, 3]], {0: "xy", 1: "xy"}),
    "square": ([[0, 0], [2000, 0], [2100, 1500], [0, 1600]], [[0, 1], [1, 2], [2, 3], [3, 0], [0, 2], [1, 3]], {0: "xy", 1: "y"}),
    "warren": ([[0, 0], [1000, 900], [2100, 0], [3000, 950], [4000, 0]], [[0, 1], [1, 2], [2, 3], [3, 4], [0, 2], [2, 4], [1, 3]], {0: "xy", 4: "y"}),
}
# load cases: lists of (node, [fx, fy])
LOADS = {
    "two": ([[(2, [1e5, -2e4])]], [[(2, [0, -9e4])], [(2, [-1.2e5, 3e4])]]),
    "three": ([[(0, [1e5, 1e5])]], [[(0, [1.3e5, -2e4])], [(0, [0, 9e4])]]),
    "fan": ([[(0, [6e4, -1.1e5])]], [[(0, [2e4, 1e5])]]),
    "roller": ([[(2, [5e4, -1e5])]], [[(2, [0, -1.5e5])], [(2, [8e4, 1e4]), (1, [3e4, 0])]]),
    "bracket": ([[(2, [0, -8e4]), (3, [2e4, -3e4])]], [[(2, [6e4, 0])], [(3, [0, -7e4])]]),
    "panel": ([[(2, [0, -8e4]), (3, [2e4, -3e4])]], [[(2, [6e4, 0])], [(3, [0, -7e4])]]),
    "square": ([[(2, [9e4, -3e4])]], [[(3, [-7e4, 0])], [(2, [3e4, -1.2e5]), (1, [2e4, 0])]]),
    "warren": ([[(2, [0, -1e5])]], [[(2, [0, -6e4]), (1, [2e4, -2e4])], [(3, [-5e4, 3e4])]]),
}
IDS = {"int": (2, 3), "enum": ("ULS", "SLS_Frequent"), "default": (None, "SLS_Frequent")}


class Ref:
    def __init__(self, name, li):
        self.X, self.bars, self.sup = TR[name]
        self.loads = LOADS[name][li]
        n = len(self.X)
        fixed = {2 * i + k for i, d in self.sup.items() for k, c in enumerate("xy") if c in d}
        self.free = [i for i in range(2 * n) if i not in fixed]
        self.L, B = [], np.zeros((2 * n, len(self.bars)))
        for k, (a, b) in enumerate(self.bars):
            d = np.subtract(self.X[b], self.X[a]).astype(float)
            L = math.hypot(*d)
            self.L.append(L)
            B[2 * b:2 * b + 2, k] = d / L          # pull at both ends: resisting forces
            B[2 * a:2 * a + 2, k] = -d / L
        self.L = np.array(self.L)
        self.B = B[self.free]
        self.p = []
        for lc in self.loads:
            p = np.zeros(2 * n)
            for node, f in lc:
                p[2 * node:2 * node + 2] += f
            self.p.append(p[self.free])
        self.m = len(self.bars)

    def elastic(self, A):
        """-> per load case (bar forces, displacements of the free directions)"""
        k = E * np.asarray(A, float) / self.L
        K = (self.B * k) @ self.B.T
        out = []
        for p in self.p:
            u = np.linalg.solve(K, p)
            out.append((k * (self.B.T @ u), u))
        return out

    def volume(self, Alb, Aub, slb, sub):
        """least volume of a design in equilibrium with stresses within the bounds; None: there is none"""
        Alb, Aub, slb, sub = (np.ones(self.m) * v for v in (Alb, Aub, slb, sub))
        if np.any(Alb > Aub):
            return None
        N0 = [np.linalg.lstsq(self.B, p, rcond=None)[0] for p in self.p]
        for n, p in zip(N0, self.p):
            if np.abs(self.B @ n - p).max() > 1e-6 * np.abs(p).max():
                return None
        Z = np.linalg.svd(self.B)[2][np.linalg.matrix_rank(self.B):].T * 1e5
        d, K = Z.shape[1], len(N0)
        D = d * K

        def areas(R):
            """R: (n, D) -> areas (n, m)"""
            A = np.tile(Alb, (len(R), 1))
            for k in range(K):
                N = N0[k] + R[:, k * d:(k + 1) * d] @ Z.T
                A = np.maximum(A, np.maximum(N / sub, -N / slb))
            return A
        if D == 0:
            R = np.zeros((1, 0))
        else:
            planes = []

            def row(k, i):
                g = np.zeros(D)
                g[k * d:(k + 1) * d] = Z[i]
                return g
            for i in range(self.m):
                for k in range(K):
                    for v in {0.0, sub[i] * Alb[i], -slb[i] * Alb[i], sub[i] * Aub[i], -slb[i] * Aub[i]}:
                        if abs(v) < 1e8:
                            planes.append((row(k, i), v - N0[k][i]))
                for k, l in itertools.combinations(range(K), 2):
                    for s, t in itertools.product((sub[i], -slb[i]), repeat=2):
                        planes.append((row(k, i) / s - row(l, i) / t, -N0[k][i] / s + N0[l][i] / t))
            planes = [(g / np.linalg.norm(g), b / np.linalg.norm(g)) for g, b in planes if np.linalg.norm(g) > 1e-9]
            R = []
            for c in itertools.combinations(planes, D):
                M = np.array([x[0] for x in c])
                if abs(np.linalg.det(M)) > 1e-9:
                    R.append(np.linalg.solve(M, np.array([x[1] for x in c])))
            R = np.array(R)
        A = areas(R)
        ok = np.all(A <= Aub * (1 + 1e-9) + 1e-9, axis=1)
        return (A[ok] @ self.L).min() if ok.any() else None


# ---------------------------------------------------------------- the code's trusses
def frame2d(name, li, ids="int", profs=None):
    import metku.frame2d.frame2d as F
    from metku.frame2d.simple_truss import SimpleTruss
    X, bars, sup = TR[name]
    X = [[float(a) for a in x] for x in X]
    profs = profs or ["SHS 50X3.0"] * len(bars)
    t = SimpleTruss([list(x) for x in X], [list(b) for b in bars], profs)
    for i, d in sup.items():
        t.add({"xy": F.XYHingedSupport, "y": F.YHingedSupport}[d](list(X[i])))
    for lid, lc in zip(IDS[ids], LOADS[name][li]):
        for node, f in lc:
            kw = {} if lid is None else {"load_id": lid if isinstance(lid, int) else getattr(F.LoadIDs, lid)}
            t.add(F.PointLoad(list(X[node]), [float(f[0]), float(f[1]), 0], **kw))
    t.generate()
    t.calculate("all", "REM")
    return t


def raami(name, li, ttype, ids="int"):
    from metku.raami.raami_simple_truss import SimpleTruss
    from metku.raami.frame_loads import PointLoad, LoadIDs
    import metku.raami.frame_supports as S
    X, bars, sup = TR[name]
    secs = [SEC.make("SHS", {"H": 50, "T": 3}) for _ in bars]
    t = SimpleTruss([list(map(float, x)) for x in X], [list(b) for b in bars], secs, truss_type=ttype)
    for i, d in sup.items():
        t.add({"xy": S.XYHingedSupport, "y": S.YHingedSupport}[d](t.nodes[i]))
    for lid, lc in zip(IDS[ids], LOADS[name][li]):
        for node, f in lc:
            kw = {} if lid is None else {"load_id": lid if isinstance(lid, int) else getattr(LoadIDs, lid)}
            t.add(PointLoad(t.nodes[node], [float(f[0]), float(f[1]), 0], **kw))
    t.generate_fem()
    t.calculate(support_method="REM", design=False)
    return t


def problems(which):
    import metku.optimization.structopt  # noqa
    import importlib
    return importlib.import_module("metku.optimization.problems." + which)


# ---------------------------------------------------------------- minimum volume (LP)
def vec(m, a, b):
    return [a if i % 2 == 0 else b for i in range(m)]


def lp_cases(tier):
    full = tier == "thorough"
    for name in TR:
        if name == "warren" and not full:
            continue
        m = len(TR[name][1])
        for li in (0, 1):
            for mod in ("truss_optimization", "raami_truss_optimization"):
                for k, (A, s) in enumerate(itertools.product(((0, 1e8), (60, 1e6), (vec(m, 0, 150), vec(m, 1e6, 420)), (vec(m, 90, 0), vec(m, 300, 1e5)), (0, 330)),
                                                             ((None, None), (355, 200), (100, 250), (vec(m, 300, 120), vec(m, 150, 355))))):
                    if full or mod == "truss_optimization" or k % 3 == li:
                        yield {"truss": name, "loads": li, "mod": mod, "A": list(A), "s": list(s), "ids": ("int", "enum", "default")[(k + li) % 3]}


def run_lp(case, ctx):
    M = problems(case["mod"])
    R = Ref(case["truss"], case["loads"])
    t = frame2d(case["truss"], case["loads"], case["ids"])
    arr = [np.array(v, float) if isinstance(v, list) and i % 2 else v for i, v in enumerate(case["A"] + case["s"])]
    kw = {k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in zip(("Alb", "Aub", "slb", "sub"), arr) if v is not None}
    P = M.truss_lp(t, **kw)
    want = R.volume(*[np.array(v, float) for v in case["A"]], *[FY if v is None else np.array(v, float) for v in case["s"]])
    for rnd in range(2):
        f, x = M.LP().solve(P)
        ctx.step()
        if want is None:
            ctx.expect(x is None or not np.isfinite(f), "lp-infeasible", f"{case}: volume {f}, but no design meets the bounds")
            continue
        if x is None or not np.isfinite(f):
            ctx.fail("lp-feasible", f"{case}: no solution, but a design of volume {want} exists")
            continue
        ctx.eq(f, want, "lp-volume", f"{case} solution {rnd + 1}: least volume", rel=2e-6, abs_=1e-2)
        area = {}
        for v, xi in zip(P.vars, x):
            if v.target:
                for o in v.target["objects"]:
                    area[id(o)] = xi
        A = np.array([area[id(o)] for o in t.members.values()])
        ctx.eq(float(A @ R.L), f, "lp-areas", f"{case}: volume of the areas returned", rel=1e-6, abs_=1e-2)
        lo, hi = (np.ones(R.m) * np.array(v, float) for v in case["A"])
        ctx.expect(np.all(A >= lo * (1 - 1e-6) - 1e-6) and np.all(A <= hi * (1 + 1e-6) + 1e-6), "lp-bounds", f"{case}: areas {A} are outside the bounds")
        got = R.volume(0, A * (1 + 1e-5) + 1e-3, *[FY if v is None else np.array(v, float) for v in case["s"]])
        ctx.expect(got is not None, "lp-design", f"{case}: the areas {A} cannot carry the loads within the stresses")
        P.substitute_variables(np.where(x > 1.0, x, 1.0) if rnd == 0 else x)
        for o, a in zip(t.members.values(), A):
            if a > 1.0:
                ctx.eq(o.cross_section.A, a, "lp-target", f"{case}: area of a member after substitution", rel=1e-9)
        ctx.state([round(float(a), 3) for a in A])


# ---------------------------------------------------------------- selection of profiles (MILP)
PROF = {"S50": ("SHS", {"H": 50, "T": 3}), "S60": ("SHS", {"H": 60, "T": 4}), "S80": ("SHS", {"H": 80, "T": 4}), "R60": ("RHS", {"H": 60, "B": 40, "T": 3}),
        "S40": ("SHS", {"H": 40, "T": 2.5}), "S90": ("SHS", {"H": 90, "T": 5})}


def resist(R, prof):
    """NRd and NbRd of a profile for every bar, rounded down to newtons as documented"""
    kind, d = PROF[prof]
    p = SEC.ref(kind, d)
    n = math.floor(p["A"] * FY)
    nb = []
    for L in R.L:
        lam = math.sqrt(p["A"] * FY / (math.pi ** 2 * E * p["I"][0] / L ** 2))
        nb.append(math.floor(ec3.chi(lam, 0.49) * p["A"] * FY))
    return p["A"], n, nb


def ratio(R, data, combo, ub):
    """the highest utilisation of strength, buckling and displacement of a combination of profiles"""
    A = [data[c][0] for c in combo]
    r = 0.0
    for N, u in R.elastic(A):
        for i, c in enumerate(combo):
            r = max(r, N[i] / data[c][1], -N[i] / min(data[c][1], data[c][2][i]))
        r = max(r, (u / ub[1]).max(), (u / ub[0]).max())
    return r


def arrays(P):
    c = np.array(P.obj.c, float)
    Aub, bub, Aeq, beq = [], [], [], []
    for con in P.cons:
        a = np.array(con.a, float)
        if con.type == "=":
            Aeq.append(a)
            beq.append(con.b)
        elif con.type == "<":
            Aub.append(a)
            bub.append(con.b)
        else:
            Aub.append(-a)
            bub.append(-con.b)
    return c, np.array(Aub), np.array(bub), np.array(Aeq), np.array(beq), [v.lb for v in P.vars], [v.ub for v in P.vars]


def pick_feasible(arr, sel, integ=None):
    """is there a point of the problem with the given values of the selection variables"""
    c, Aub, bub, Aeq, beq, lb, ub = arr
    lb, ub = list(lb), list(ub)
    for i, v in sel.items():
        lb[i] = ub[i] = v
    if integ is None:
        r = so.linprog(c, Aub, bub, Aeq, beq, list(zip(lb, ub)), method="highs")
        return r.status == 0, (r.fun if r.status == 0 else None), r.status
    r = so.milp(c, integrality=integ, bounds=so.Bounds(lb, ub), constraints=[so.LinearConstraint(Aub, -np.inf, bub), so.LinearConstraint(Aeq, beq, beq)])
    return r.status == 0, (r.fun if r.status == 0 else None), r.status


def selectors(P, t):
    """index of the selection variables: (member index, section) -> variable"""
    out = {}
    mem = {id(o): i for i, o in enumerate(t.members.values())}
    for i, v in enumerate(P.vars):
        if type(v).__name__ == "BinaryVariable" and v.section is not None:
            out[(mem[id(v.target["objects"][0])], id(v.section))] = i
    return out


def milp_cases(tier):
    full = tier == "thorough"
    for name in ("two", "three", "roller", "bracket", "fan", "panel", "square"):
        m = len(TR[name][1])
        for li in (0, 1):
            if name in ("fan", "panel", "square") and not full and li == 1:
                continue
            profs = [["S50", "S60", "S80"], ["R60", "S90", "S40", "S60"]] if m <= 3 else [["S50", "S80"], ["S60", "S40"]] if m >= 5 else [["S50", "S80", "S40"]]
            for k, (pr, ub) in enumerate(itertools.product(profs, ([-200, 200], [-2.0, 1.5]))):
                yield {"truss": name, "loads": li, "P": pr, "u": ub, "make": "truss", "ids": ("int", "enum", "default")[(k + li) % 3]}
                if full or k % 2 == li:
                    yield {"truss": name, "loads": li, "P": pr, "u": ub, "make": "raami", "ids": ("int", "enum", "default")[(k + li + 1) % 3]}
                for sc in ([1e-3, 1e-1], [1.0, 1.0], [1e-3, 1.0], [1e-3, 1e-3]) if full or li == k % 2 else ([1e-3, 1e-1],):
                    yield {"truss": name, "loads": li, "P": pr, "u": ub, "make": "class", "scale": sc, "ids": ("int", "enum", "default")[k % 3]}
        if m <= 4:
            pr = ["S50", "S60", "S80"]
            yield {"truss": name, "loads": 0, "P": pr, "u": [-200, 200], "make": "class", "scale": [1e-3, 1e-1], "ids": "int",
                   "lists": [[0, {"member": 0, "profiles": [1, 2]}]]}
            yield {"truss": name, "loads": 1, "P": pr, "u": None, "make": "class", "scale": [1e-3, 1e-1], "ids": "int",
                   "lists": [[0, {"member": 1, "profiles": [2]}], [1, {"member": 0, "profiles": [0, 1]}]]}
            yield {"truss": name, "loads": 0, "P": pr, "u": [-3.0, 3.0], "make": "class", "scale": None, "ids": "int"}


def build_milp(case, t, secs, kind="sizing", groups=None):
    u = case["u"]
    kw = {} if u is None else {"ulb": u[0], "uub": u[1]}
    if case["make"] == "class":
        M = problems("truss_milp")
        if case.get("lists"):
            kw["member_profiles"] = [dict(d) for _, d in case["lists"]]
        if case.get("scale"):
            kw["scaling"] = dict(zip("Nu", case["scale"]))
        if groups is not None:
            kw["groups"] = groups
        o = M.TrussMILP("truss", t, secs, **kw)
        o.create_milp(problem_type=kind)
        return o.milp, M.MILP, o
    M = problems("truss_optimization" if case["make"] == "truss" else "raami_truss_optimization")
    return M.truss_milp(t, secs, **kw), M.MILP, None


def run_milp(case, ctx):
    R = Ref(case["truss"], case["loads"])
    secs = [SEC.make(*PROF[p]) for p in case["P"]]
    t = frame2d(case["truss"], case["loads"], case["ids"])
    P, MILP, o = build_milp(case, t, secs)
    data = {p: resist(R, p) for p in case["P"]}
    allowed = [list(case["P"]) for _ in range(R.m)]
    for _, d in case.get("lists", []):
        allowed[d["member"]] = [case["P"][j] for j in d["profiles"]]
    ub = case["u"] or [-1e3, 1e3]
    sel = selectors(P, t)
    ctx.expect(len(sel) == sum(map(len, allowed)), "milp-choices", f"{case}: {len(sel)} selection variables, {allowed} are allowed")
    ids = {p: id(s) for p, s in zip(case["P"], secs)}
    arr = arrays(P)
    table = []
    for combo in itertools.product(*allowed):
        r = ratio(R, data, combo, ub)
        w = float(sum(data[c][0] * L for c, L in zip(combo, R.L)) * RHO)
        table.append((w, r, combo))
        fix = {i: 0.0 for i in sel.values()}
        try:
            for i, c in enumerate(combo):
                fix[sel[(i, ids[c])]] = 1.0
        except KeyError:
            ctx.fail("milp-choices", f"{case}: profiles {combo} cannot be selected")
            return
        ok, f, st = pick_feasible(arr, fix)
        ctx.step()
        if st not in (0, 2):
            continue
        if r < 1 - 1e-3:
            ctx.expect(ok, "milp-feasible", f"{case}: profiles {combo} are refused, though strength, buckling and displacements are used to {r:.4f}")
        elif r > 1 + 1e-3:
            ctx.expect(not ok, "milp-infeasible", f"{case}: profiles {combo} are accepted, though a resistance or displacement is used to {r:.4f}")
        if ok and f is not None:
            ctx.eq(f, w, "milp-weight", f"{case}: weight with profiles {combo}", rel=1e-5)
        ctx.state([combo, r < 1])
    M = max(abs(v) for v in ub)
    if case["make"] == "class" and case.get("scale") != [1e-3, 1e-1] or M > 500:
        return                       # too large a spread of units for the solver's tolerances
    f, x = MILP().solve(P)
    safe = [w for w, r, c in table if r < 1 - 4e-3]
    may = [w for w, r, c in table if r < 1 + 4e-3]
    if x is None or not np.isfinite(f):
        ctx.expect(not safe, "milp-none", f"{case}: no solution found, though {len(safe)} combinations are adequate")
        return
    if not may:
        ctx.fail("milp-unsafe", f"{case}: solution of weight {f}, though no combination is adequate")
        return
    ctx.expect(f >= min(may) * (1 - 1e-5), "milp-unsafe", f"{case}: weight {f}, the lightest adequate combination weighs {min(may)}")
    ctx.expect(not safe or f <= min(safe) * (1 + 1e-5), "milp-heavy", f"{case}: weight {f}, the lightest adequate combination weighs {min(safe or [0])}")
    if o is None:
        P.substitute_variables(x)
    else:
        o.substitute_design(x)
    areas = {id(s): data[p][0] for p, s in zip(case["P"], secs)}
    want = [next((areas[s] for (i, s), j in sel.items() if i == k and x[j] > 0.5), None) for k in range(R.m)]
    ctx.eq([m.cross_section.A for m in t.members.values()], want, "milp-design", f"{case}: sections of the truss with the solution", rel=1e-5)
    ctx.eq(t.weight, f, "milp-truss-weight", f"{case}: weight of the truss with the solution", rel=1e-5)


# ---------------------------------------------------------------- topology
def topo_cases(tier):
    full = tier == "thorough"
    for name in ("two", "three", "fan", "bracket", "panel", "roller") + (("square",) if full else ()):
        m = len(TR[name][1])
        for li in (0, 1):
            for pr in ([["S60", "S80"]] if m <= 5 else [["S80"]]):
                yield {"truss": name, "loads": li, "P": pr, "u": [-20, 20], "make": "class", "scale": [1e-3, 1e-1], "ids": "int"}
                if m <= 4 or full:
                    yield {"truss": name, "loads": li, "P": pr, "u": [-20, 20], "make": "class", "scale": [1e-3, 1e-1], "ids": "int", "group": [0, 1]}


def topo_ratio(R, data, combo, ub):
    """None: not a structure for the loads; otherwise the highest utilisation"""
    deg = [0] * len(R.X)
    for (a, b), c in zip(R.bars, combo):
        if c is not None:
            deg[a] += 1
            deg[b] += 1
    n = sum(1 for d in deg if d)
    sup = [i for i in R.sup if deg[i]]
    if any(0 < d < 2 for i, d in enumerate(deg) if i not in R.sup) or len(sup) < 2:
        return None
    if sum(c is not None for c in combo) + sum(len(R.sup[i]) for i in sup) < 2 * n:
        return None
    k = np.array([E * data[c][0] / L if c is not None else 0.0 for c, L in zip(combo, R.L)])
    K = (R.B * k) @ R.B.T
    live = [i for i, dof in enumerate(R.free) if deg[dof // 2]]
    Kl = K[np.ix_(live, live)]
    r = 0.0
    for p in R.p:
        dead = np.delete(p, live)
        if dead.size and np.abs(dead).max() > 0:
            return None
        if np.linalg.matrix_rank(Kl, tol=1e-6 * max(k)) < len(live):
            u0 = np.linalg.lstsq(Kl, p[live], rcond=1e-9)[0]
            if np.abs(Kl @ u0 - p[live]).max() > 1e-3 * np.abs(p).max():
                return None
            return "mechanism"
        u = np.zeros(len(R.free))
        u[live] = np.linalg.solve(Kl, p[live])
        N = k * (R.B.T @ u)
        for i, c in enumerate(combo):
            if c is not None:
                r = max(r, N[i] / data[c][1], -N[i] / min(data[c][1], data[c][2][i]))
        r = max(r, (u / ub[1]).max(), (u / ub[0]).max())
    return r


def run_topo(case, ctx):
    R = Ref(case["truss"], case["loads"])
    secs = [SEC.make(*PROF[p]) for p in case["P"]]
    t = frame2d(case["truss"], case["loads"], case["ids"])
    groups = None
    if case.get("group"):
        groups = [{"members": list(case["group"]), "profiles": list(range(len(secs)))}]
    P, MILP, o = build_milp(case, t, secs, "topology", groups)
    data = {p: resist(R, p) for p in case["P"]}
    ids = {p: id(s) for p, s in zip(case["P"], secs)}
    sel = selectors(P, t)
    arr = arrays(P)
    integ = [1 if type(v).__name__ == "BinaryVariable" else 0 for v in P.vars]
    table = []
    for combo in itertools.product([None] + list(case["P"]), repeat=R.m):
        r = topo_ratio(R, data, combo, case["u"])
        if groups:
            g = {combo[i] for i in case["group"]} - {None}
            if len(g) > 1:
                r = None
        w = float(sum(data[c][0] * L for c, L in zip(combo, R.L) if c is not None) * RHO)
        fix = {i: 0.0 for i in sel.values()}
        for i, c in enumerate(combo):
            if c is not None:
                fix[sel[(i, ids[c])]] = 1.0
        ok, f, st = pick_feasible(arr, fix, integ)
        ctx.step()
        if r == "mechanism" or st not in (0, 2):
            table.append((w, 1.0, combo))
            continue
        table.append((w, 9.0 if r is None else r, combo))
        if r is None or r > 1 + 1e-3:
            ctx.expect(not ok, "topology-infeasible", f"{case}: the members {combo} are accepted ({'no structure for the loads' if r is None else f'used to {r:.4f}'})")
        elif r < 1 - 1e-3:
            ctx.expect(ok, "topology-feasible", f"{case}: the members {combo} are refused (used to {r:.4f})")
        if ok:
            ctx.eq(f, w, "topology-weight", f"{case}: weight of members {combo}", rel=1e-5, abs_=1e-6)
        ctx.state([combo, r is None or r > 1])
    f, x = MILP().solve(P)
    safe = [w for w, r, c in table if r < 1 - 4e-3]
    may = [w for w, r, c in table if r < 1 + 4e-3]
    if x is None or not np.isfinite(f):
        ctx.expect(not safe, "topology-none", f"{case}: no solution found, though {len(safe)} designs are adequate")
        return
    ctx.expect(may and f >= min(may) * (1 - 1e-5), "topology-unsafe", f"{case}: weight {f}, the lightest adequate design weighs {min(may or [0])}")
    ctx.expect(not safe or f <= min(safe) * (1 + 1e-5), "topology-heavy", f"{case}: weight {f}, the lightest adequate design weighs {min(safe or [0])}")
    o.substitute_design(x)
    for k, m in enumerate(t.members.values()):
        there = any(i == k and x[j] > 0.5 for (i, s), j in sel.items())
        ctx.eq(bool(m.active), there, "topology-design", f"{case}: member {k} is active with the solution")


# ---------------------------------------------------------------- areas as variables
DES = {"a": (700, 500), "b": (450, 1300), "c": (2000, 2000), "d": (300, 301)}
CONS = ({"stress": True}, {"strength": True}, {"buckling": "EN 1993"}, {"buckling": "euler"}, {"stress": True, "buckling": "euler"}, {"strength": True, "buckling": "EN 1993"})


def design(m, k):
    a, b = DES[k]
    return [float(a + 17 * i) if i % 2 == 0 else float(b - 11 * i) for i in range(m)]


def area_cases(tier):
    full = tier == "thorough"
    for name in TR:
        for li in (0, 1):
            for fl in ("general", "steel", "frame2d"):
                if fl == "frame2d" and len(LOADS[name][li]) > 1:
                    continue
                for k, con in enumerate(CONS):
                    if fl == "general" and "buckling" in con:
                        continue
                    if not full and name in ("warren", "square", "bracket") and k % 2 == li:
                        continue
                    for word in histories(["a", "b", "c"], 2 if not full else 3, mindepth=2):
                        if len(word) > 1 and word[0] == word[1] and word[0] != "a":
                            continue
                        yield {"truss": name, "loads": li, "kind": fl, "cons": con, "word": word, "rev": (k + len(name)) % 2}


def make_opt(case, variables=True, **kw):
    if case["kind"] == "frame2d":
        M = problems("raami_truss_optimization")
        t = frame2d(case["truss"], case["loads"], "enum")
    else:
        M = problems("truss_optimization")
        t = raami(case["truss"], case["loads"], case["kind"], case.get("ids", "int"))
    P = M.TrussOptimization(structure=t, constraints=dict(case["cons"]))
    if variables:
        P.create_variables(lb=case.get("lb", 50.0), ub=case.get("ub", 5000.0))
    return P, t


def expected(R, x, cons):
    p = SEC.ref("SHS", {"H": 50, "T": 3})
    vals = []
    for N, u in R.elastic(x):
        for i, n in enumerate(N):
            npl = x[i] * FY
            ncr = math.pi ** 2 * E * p["I"][0] / R.L[i] ** 2
            for _ in range(bool(cons.get("stress")) + bool(cons.get("strength"))):
                vals += [n / npl - 1, -n / npl - 1]
            if cons.get("buckling") == "euler":
                vals.append(-n / ncr - 1)
            elif cons.get("buckling"):
                vals.append(-n / (ec3.chi(math.sqrt(npl / ncr), 0.49) * npl) - 1)
    return vals


def run_area(case, ctx):
    R = Ref(case["truss"], case["loads"])
    P, t = make_opt(case)
    for n, k in enumerate(case["word"]):
        x = design(R.m, k)
        want = sorted(expected(R, x, case["cons"]))
        cons = list(P.cons)[::-1] if case["rev"] else list(P.cons)
        if (n + case["rev"]) % 2:
            f = P.obj(x)
            got = [c(x) for c in cons]
        else:
            got = [c(x) for c in cons]
            f = P.obj(x)
        ctx.step(len(got))
        ctx.eq(f, float(np.dot(x, R.L)) * RHO / 10, "area-objective", f"{case} step {n + 1}: objective", rel=1e-5)
        ctx.expect(len(got) == len(want), "area-count", f"{case}: {len(got)} constraints, {len(want)} are needed")
        if len(got) == len(want):
            ctx.eq(sorted(map(float, got)), want, "area-constraint", f"{case} step {n + 1}: values of the constraints", rel=2e-5, abs_=2e-5)
        if abs(max(want)) > 1e-4:
            ctx.eq(bool(P.feasible(x)), max(want) <= 0, "area-feasible", f"{case} step {n + 1}: feasibility (greatest constraint {max(want)})")
        ctx.state([case["truss"], case["loads"], case["kind"], k, max(want) <= 0])


def rule_cases(tier):
    for name in TR:
        for li in (0, 1):
            for fl in ("general", "frame2d"):
                if fl == "frame2d" and len(LOADS[name][li]) > 1:
                    continue
                for k in DES:
                    for disp in (None, [-1.0, 0.8], [-30, 30], [None, 1.5], [-0.6, None]):
                        for lb, ub in ((50.0, 5000.0), (400.0, 900.0)):
                            yield {"rule": "scale", "truss": name, "loads": li, "kind": fl, "cons": {"stress": True}, "x": k, "disp": disp, "lb": lb, "ub": ub}
            if len(TR[name][1]) == len(Ref(name, li).free):
                for fl in ("general", "steel", "frame2d"):
                    for lb, ub in ((1.0, 5000.0), (120.0, 230.0)):
                        for grp in (0, 1):
                            yield {"rule": "fsd", "truss": name, "loads": li, "kind": fl, "cons": {"stress": True}, "lb": lb, "ub": ub, "group": grp}


def run_rule(case, ctx):
    R = Ref(case["truss"], case["loads"])
    if case["rule"] == "fsd":
        P, t = make_opt(case, variables=False)
        mems = list(t.members.values())
        idx = [[i] for i in range(R.m)]
        if case["group"]:
            idx = [list(range(0, R.m, 2)), list(range(1, R.m, 2))]
            P.var_groups = [{"name": f"G{j}", "objects": [mems[i] for i in g], "value": 300.0, "property": "A", "var_type": "continuous", "lb": case["lb"], "ub": case["ub"]}
                            for j, g in enumerate(idx)]
        P.create_variables(lb=case["lb"], ub=case["ub"])
        P.fsd()
        N = np.max([np.abs(n) for n, u in R.elastic(np.ones(R.m) * 500.0)], axis=0)
        want = [min(max(max(N[i] for i in g) / FY, case["lb"]), case["ub"]) for g in idx]
        ctx.eq([float(v.value) for v in P.vars], want, "fsd", f"{case}: areas of the fully stressed design", rel=1e-5)
        ctx.eq([float(mems[g[-1]].cross_section.A) for g in idx], want, "fsd-truss", f"{case}: areas of the truss", rel=1e-5)
        ctx.state([round(v, 2) for v in want])
        return
    P, t = make_opt(case)
    x = np.clip(design(R.m, case["x"]), case["lb"], case["ub"])
    node = max(i for i in range(len(R.X)) if i not in R.sup)
    rows = {d: R.free.index(2 * node + k) for k, d in enumerate("xy")}
    res = R.elastic(x)
    need = max(max(abs(n / (xi * FY)) for n, xi in zip(N, x)) for N, u in res)
    if case["disp"]:
        lo, hi = case["disp"]
        nd = next(n for n in (t.f if case["kind"] == "frame2d" else t.fem).nodes if abs(n.x - R.X[node][0]) < 1 and abs(n.y - R.X[node][1]) < 1)
        for d in "xy":
            kw = {k: v for k, v in (("ulb", lo), ("uub", hi)) if v is not None}
            for c in range(len(res)):
                lids = list(t.load_ids)
                P.displacement_constraint(nd, dof=d, load_case=None if c == 0 else lids[c], **kw)
                u = res[c][1][rows[d]]
                need = max([need] + [u / b for b in (lo, hi) if b is not None])
        g = sorted(float(c(x)) for c in P.displacement_cons)
        want = sorted(res[c][1][rows[d]] / b - 1 for c in range(len(res)) for d in "xy" for b in (lo, hi) if b is not None)
        ctx.eq(g, want, "displacement", f"{case}: displacement constraints", rel=1e-5, abs_=1e-5)
    mu = max(need, max(case["lb"] / x))
    if abs(mu - min(case["ub"] / x)) < 1e-6:
        return
    want = (mu if mu <= min(case["ub"] / x) else 1.0) * x
    y = P.scale_design(x.copy())
    ctx.step()
    ctx.eq([float(v) for v in y], [float(v) for v in want], "scale", f"{case}: the scaled design", rel=2e-5)
    if mu <= min(case["ub"] / x):
        worst = max(float(c(y)) for c in P.cons)
        ctx.expect(worst <= 1e-4, "scale-feasible", f"{case}: the scaled design violates a constraint by {worst}")
    ctx.state([case["truss"], case["loads"], case["x"], mu > 1])


def families(tier):
    full = tier == "thorough"
    return [
        Family("lp", lambda: lp_cases(tier), run_lp, "trusses x load cases x bounds of areas and stresses x both modules: optimum against all vertices of the force polytope", f"{len(TR)} trusses, 1-2 load cases"),
        Family("milp", lambda: milp_cases(tier), run_milp, "trusses x load cases x profile lists x displacement bounds x formulation and units; every combination of profiles is decided both ways", "up to 3^4, 2^6 or 4^3 combinations per problem"),
        Family("topology", lambda: topo_cases(tier), run_topo, "every selection of members and profiles of small ground structures, with and without a group", "up to 3^5 designs per problem" + (", 2^6" if full else "")),
        Family("areas", lambda: area_cases(tier), run_area, "sizing problems evaluated at every sequence of designs: objective, all constraints, feasibility", f"histories of {3 if full else 2} designs"),
        Family("rules", lambda: rule_cases(tier), run_rule, "scaling of designs to the active constraint and fully stressed designs of determinate trusses", "4 designs x 5 displacement limits x 2 bounds; all determinate trusses"),
    ]
