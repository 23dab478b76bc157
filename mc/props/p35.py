"""P35: the benchmark truss problems measure the truss that they publish."""
import itertools
import numpy as np
from ..core import Family

IN2 = 645.16
AREAS = {"ten": [1.62, 1.80, 1.99, 2.13, 2.38, 2.62, 2.63, 2.88, 2.93, 3.09, 3.13, 3.38, 3.47, 3.55, 3.63, 3.84, 3.87, 3.88, 4.18, 4.22, 4.49, 4.59,
                 4.80, 4.97, 5.12, 5.74, 7.22, 7.97, 11.50, 13.50, 13.90, 14.20, 15.50, 16.00, 16.90, 18.80, 19.90, 22.00, 22.90, 26.50, 30.00, 33.50],
         "fifteen": [0.111, 0.141, 0.174, 0.220, 0.270, 0.287, 0.347, 0.440, 0.539, 0.954, 1.081, 1.174, 1.333, 1.488, 1.764, 2.142, 2.697, 2.800,
                     3.131, 3.565, 3.813, 4.805, 5.952, 6.572, 7.192, 8.525, 9.300, 10.850, 13.300, 14.290, 17.170, 19.180]}
L = 9144.0
E, SIGMA, DELTA, RHO = 68950.0, 172.37, 50.8, 2768e-9
TEN = {1: (2 * L, L), 2: (2 * L, 0), 3: (L, L), 4: (L, 0), 5: (0, 0), 6: (0, L)}
TEN_LOADS = {2: (0, -444890.0), 4: (0, -444890.0)}
G, H = L / 3, 3048.0
FIF = {1: (0, H), 2: (G, H), 3: (2 * G, H), 4: (3 * G, H), 5: (0, 0), 6: (G, 0), 7: (2 * G, 0), 8: (3 * G, 0)}
# name -> class, nodes, bars (in the order of the members), loads, supported nodes, area list, relative tolerance (bars of the
# Frame2D models are beams with hinged ends whose joints at the crossings of the diagonals are common), groups of bars
PROBLEMS = {
    "TenBarTruss": ("ten_bar_truss", TEN, [(6, 3), (3, 1), (5, 4), (4, 2), (3, 4), (1, 2), (6, 4), (5, 3), (3, 2), (4, 1)], TEN_LOADS, (5, 6), "ten", 4e-3, None),
    "SimpleTenBarTruss": ("simple_ten_bar_truss", TEN, [(5, 3), (3, 1), (6, 4), (4, 2), (3, 4), (1, 2), (5, 4), (6, 3), (3, 2), (4, 1)], TEN_LOADS, (5, 6), "ten", 1e-6, None),
    "SimpleFifteenBarTruss": ("simple_fifteen_bar_truss", FIF,
                              [(1, 2), (2, 3), (3, 4), (5, 6), (6, 7), (7, 8), (6, 2), (7, 3), (8, 4), (1, 6), (5, 2), (2, 7), (6, 3), (3, 8), (7, 4)],
                              {8: (0, -444890.0)}, (1, 5), "fifteen", 1e-6, None),
    "ThreeBarTruss": ("three_bar_truss", {1: (0, 0), 2: (H, 0), 3: (2 * H, 0), 4: (H, -H)}, [(1, 4), (2, 4), (3, 4)], {4: (-444890.0, -444890.0)}, (1, 2, 3), "fifteen",
                      1.5e-2, [(0, 2), (1,)]),
}


def truss(nodes, bars, A, loads, fixed):
    """forces, node displacements and bar lengths of the pin-jointed truss"""
    ix = {n: k for k, n in enumerate(nodes)}
    n = len(nodes)
    K = np.zeros((2 * n, 2 * n))
    geo = []
    for (i, j), a in zip(bars, A):
        d = np.subtract(nodes[j], nodes[i]).astype(float)
        l = float(np.hypot(*d))
        v = np.r_[-d / l, d / l]
        dof = [2 * ix[i], 2 * ix[i] + 1, 2 * ix[j], 2 * ix[j] + 1]
        K[np.ix_(dof, dof)] += E * a / l * np.outer(v, v)
        geo.append((l, v, dof))
    f = np.zeros(2 * n)
    for k, (x, y) in loads.items():
        f[2 * ix[k]] += x
        f[2 * ix[k] + 1] += y
    free = [d for k in nodes if k not in fixed for d in (2 * ix[k], 2 * ix[k] + 1)]
    u = np.zeros(2 * n)
    u[free] = np.linalg.solve(K[np.ix_(free, free)], f[free])
    N = [E * a / l * float(v @ u[dof]) for (l, v, dof), a in zip(geo, A)]
    return N, {k: (u[2 * ix[k]], u[2 * ix[k] + 1]) for k in nodes}, [g[0] for g in geo]


def make(name, kind):
    import importlib
    import metku.framefem.framefem  # noqa: F401
    M = importlib.import_module("metku.optimization.benchmarks." + PROBLEMS[name][0])
    return getattr(M, name)(kind)


def values(name, x):
    """areas of the variables; x: indices in the list of areas, or half-way between two of them"""
    lst = published(name)
    return [lst[int(i)] if i == int(i) else 0.5 * (lst[int(i)] + lst[int(i) + 1]) for i in x]


def point(name, kind, x):
    return [int(i) for i in x] if kind == "index" else values(name, x)


def published(name):
    """areas [mm2] as the problems list them: the published areas in square inches, times 645 (ten bars) or 645.16"""
    k = PROBLEMS[name][5]
    return [a * 645 if k == "ten" else round(a * IN2, 3) for a in AREAS[k]]


def reference(name, x):
    _, nodes, bars, loads, fixed, k, tol, groups = PROBLEMS[name]
    vals = values(name, x)
    A = list(vals)
    order = list(range(len(bars)))
    if groups:
        A = [0.0] * len(bars)
        for v, g in zip(vals, groups):
            for b in g:
                A[b] = v
        order = [b for g in groups for b in g]
    N, u, ls = truss(nodes, bars, A, loads, fixed)
    con = {}
    for c, b in enumerate(order, 1):
        s = N[b] / (A[b] * SIGMA)
        con["Tension %d" % c] = s - 1
        con["Compression %d" % c] = -s - 1
        ends = [u[e] for e in bars[b]]
        if name == "TenBarTruss":
            con["Displacement %d" % c] = max(abs(e[1]) for e in ends) / DELTA - 1
        elif name == "ThreeBarTruss":
            con["Buckling %d" % c] = -N[b] / A[b] / (100 * E * A[b] / (8 * ls[b] ** 2)) - 1
        else:
            con["Displacement %d" % c] = max(abs(q) for e in ends for q in e) / DELTA - 1
    return sum(a * l for a, l in zip(A, ls)) * RHO, con


def legacy(g, cname, con, tol):
    """known finding: the three-bar truss names tension compression (and the other way round) and has the strength of the default
    profile, 355 MPa, as the stress limit.  Nothing but exactly these values is accepted as the known finding"""
    kind, i = cname.split()
    other = {"Tension": "Compression", "Compression": "Tension"}.get(kind)
    return other is not None and abs(g - ((con[f"{other} {i}"] + 1) * SIGMA / 355.0 - 1)) <= tol


def judge(ctx, p, name, kind, x, order, what, known=True):
    """weight and constraints of the problem at the point; order: which is asked first"""
    w, con = reference(name, x)
    xv = point(name, kind, x)
    tol = PROBLEMS[name][6]
    scale = max(1.0, max(abs(v + 1) for v in con.values()))
    for q in order:
        if q == "w":
            ctx.eq(float(p.obj(xv)), w, "weight", f"{what}: weight", 1e-9)
        else:
            names = [c.name for c in p.cons]
            ctx.expect(sorted(names) == sorted(con), "constraints", f"{what}: constraints {sorted(set(names) ^ set(con))}")
            seq = p.cons if q == "c" else list(reversed(list(p.cons)))
            for c in seq:
                g = float(c(xv))
                if known and name == "ThreeBarTruss" and legacy(g, c.name, con, tol * scale):
                    ctx.undefined += 1              # reported by the family "three-bar"
                    continue
                ctx.eq(g, con[c.name], c.name.split()[0].lower(), f"{what}: {c.name}", 0.0, tol * scale)


def run(case, ctx):
    name, kind = case["problem"], case["kind"]
    p = make(name, kind)
    judge(ctx, p, name, kind, case["x"], case["order"], f"{name} ({kind}) at {case['x']}")
    ctx.state((name, kind, tuple(case["x"])))


def nvar(name):
    return 2 if name == "ThreeBarTruss" else len(PROBLEMS[name][2])


KINDS = {"TenBarTruss": ("continuous", "discrete", "index"), "SimpleTenBarTruss": ("continuous", "discrete", "index"),
         "SimpleFifteenBarTruss": ("continuous", "discrete", "index"), "ThreeBarTruss": ("continuous",)}   # discrete: known finding, see run_three


def levels(name):
    n = len(AREAS[PROBLEMS[name][5]])
    lo = 9 if name == "ThreeBarTruss" else 0
    return [lo, n // 2, n - 1]


def points(tier):
    for name in PROBLEMS:
        lv = levels(name)
        n = nvar(name)
        for kind in KINDS[name]:
            order = ["w", "c"]
            for base in lv:
                yield {"problem": name, "kind": kind, "x": [base] * n, "order": order}
                for i in range(n):
                    for v in lv:
                        if v != base and (tier == "thorough" or base == lv[1] or kind != "discrete"):
                            x = [base] * n
                            x[i] = v
                            yield {"problem": name, "kind": kind, "x": x, "order": order}
            if kind == "continuous":
                yield {"problem": name, "kind": kind, "x": [lv[1] + 0.5] * n, "order": order}
            if tier == "thorough":
                for i, j in itertools.combinations(range(n), 2):
                    for a, b in itertools.product((lv[0], lv[2]), repeat=2):
                        x = [lv[1]] * n
                        x[i], x[j] = a, b
                        yield {"problem": name, "kind": kind, "x": x, "order": order}


def run_history(case, ctx):
    """two problems alive; every operation asks one of them at a point, and all values are those of that point"""
    ps = {}
    for k, (name, kind) in enumerate(case["problems"]):
        ps[k] = make(name, kind)
    for t, (k, x, order) in enumerate(case["ops"]):
        name, kind = case["problems"][k]
        n = nvar(name)
        lv = levels(name)
        xs = [lv[1]] * n if x == "mid" else [lv[2] if i % 2 else lv[1] for i in range(n)] if x == "alt" else [lv[1] if i < n // 2 else lv[1] + 3 for i in range(n)]
        judge(ctx, ps[k], name, kind, xs, order, f"{name} ({kind}), history {case['ops'][:t + 1]}")
    ctx.state(str(case))


PAIRS = [(("SimpleTenBarTruss", "discrete"), ("SimpleFifteenBarTruss", "continuous")), (("TenBarTruss", "continuous"), ("ThreeBarTruss", "continuous")),
         (("SimpleTenBarTruss", "index"), ("SimpleTenBarTruss", "continuous")), (("ThreeBarTruss", "continuous"), ("SimpleFifteenBarTruss", "index")),
         (("TenBarTruss", "discrete"), ("TenBarTruss", "index"))]


def histories(tier):
    ops = [(k, x, o) for k in (0, 1) for x in ("mid", "alt") for o in (["w"], ["c"])]
    if tier == "thorough":
        ops += [(k, "half", o) for k in (0, 1) for o in (["c", "w"], ["r"])]
    for pr in PAIRS:
        slow = any(q[0] == "TenBarTruss" for q in pr)
        for seq in itertools.product(ops, repeat=2 if slow or tier != "thorough" else 3):
            yield {"problems": [list(q) for q in pr], "ops": [list(o) for o in seq]}


def run_swaps(case, ctx):
    """one problem: a point with different values, then every point with two of them exchanged, and back"""
    name, kind, i = case["problem"], case["kind"], case["i"]
    p = make(name, kind)
    n, lo = nvar(name), levels(name)[0]
    x = [lo + 4 + 2 * k for k in range(n)] if name != "SimpleFifteenBarTruss" else [lo + 2 + 2 * k for k in range(n)]
    what = f"{name} ({kind}), values {x} exchanged"
    judge(ctx, p, name, kind, x, ["w", "c"], what)
    for j in range(n):
        if j == i:
            continue
        y = list(x)
        y[i], y[j] = x[j], x[i]
        judge(ctx, p, name, kind, y, ["c", "w"] if j % 2 else ["w", "c"], f"{what}: {i} and {j}")
        ctx.state((name, kind, tuple(y)))
    judge(ctx, p, name, kind, x, ["c", "w"], f"{what}: back")


def swaps(tier):
    for name in PROBLEMS:
        for kind in KINDS[name]:
            for i in range(nvar(name)):
                if tier == "thorough" or kind != "index" or name.startswith("Simple"):
                    yield {"problem": name, "kind": kind, "i": i}


def run_three(case, ctx):
    """known findings of the three-bar truss: stress limit and names; values of the discrete variables"""
    name = "ThreeBarTruss"
    p = make(name, case["kind"])
    if case["what"] == "values":
        for v in p.vars:
            got = v.values if v.values is not None else []
            ctx.expect([round(float(q), 6) for q in got] == [round(q, 6) for q in published(name)], "three-bar-values", f"{name}: values of {v.name} are {got}")
        return
    _, con = reference(name, case["x"])
    xv = point(name, case["kind"], case["x"])
    tol = PROBLEMS[name][6] * max(1.0, max(abs(v + 1) for v in con.values()))
    for c in p.cons:
        g = float(c(xv))
        key = "three-bar-stress-limit" if legacy(g, c.name, con, tol) else c.name.split()[0].lower()
        ctx.eq(g, con[c.name], key, f"{name} at {case['x']}: {c.name}", 0.0, tol)
    ctx.state(str(case))


def three(tier):
    yield {"kind": "continuous", "what": "limit", "x": [20, 20]}
    yield {"kind": "continuous", "what": "limit", "x": [25, 15]}
    yield {"kind": "discrete", "what": "values"}


def run_optimum(case, ctx):
    """the published optima of the discrete ten-bar truss are feasible and have the published weight"""
    name, kind = case["problem"], case["kind"]
    p = make(name, kind)
    best = [33.5, 1.62, 22.9, 14.2, 1.62, 1.62, 7.97, 22.9, 22.0, 1.62]        # 5490.74 lb
    if case["which"] == 1:
        best = [33.5, 1.62, 22.9, 15.5, 1.62, 1.62, 7.97, 22.0, 22.0, 1.62]    # 5491.71 lb
    w = [5490.74, 5491.71][case["which"]] * 0.45359237
    # bars in the published numbering: (6,3) (3,1) (5,4) (4,2) (3,4) (1,2) (6,4) (5,3) (3,2) (4,1)
    num = [(6, 3), (3, 1), (5, 4), (4, 2), (3, 4), (1, 2), (6, 4), (5, 3), (3, 2), (4, 1)]
    x = [AREAS["ten"].index(best[num.index(b)]) for b in PROBLEMS[name][2]]
    xv = point(name, kind, x)
    ctx.eq(float(p.obj(xv)), w, "optimum-weight", f"{name}: weight of the published optimum", 1e-3)
    for c in p.cons:
        ctx.expect(float(c(xv)) <= 2e-3, "optimum", f"{name}: {c.name} of the published optimum: {float(c(xv))}")
    ctx.state(str(case))


def families(tier):
    return [
        Family("points", lambda: points(tier), run, "benchmark problem x type of variables x design points",
               "three base points x every single change%s" % (" x every pair of changes of the middle point" if tier == "thorough" else "")),
        Family("histories", lambda: histories(tier), run_history, "two problems alive x sequences of evaluations at different points in different order",
               "every history of depth %s of %d pairs of problems" % ("3 (2 with TenBarTruss)" if tier == "thorough" else "2", len(PAIRS))),
        Family("swaps", lambda: swaps(tier), run_swaps, "one problem x every exchange of two values of a point, one after the other", "complete for one point of different values"),
        Family("three-bar", lambda: three(tier), run_three, "known findings of the three-bar truss", "3 cases"),
        Family("optimum", lambda: [{"problem": n, "kind": k, "which": w} for n in ("TenBarTruss", "SimpleTenBarTruss") for k in ("discrete", "index") for w in (0, 1)],
               run_optimum, "published optima of the ten-bar truss", "complete"),
    ]
