"""P09: linear, convex-linear and moving-asymptote approximations at their expansion point."""
import itertools
import math
from types import SimpleNamespace as NS
from ..core import Family, product_cases, canon

# functions of three variables with their gradients; all are smooth for positive x
FUNS = {
    "poly": (lambda x: x[0] ** 2 - 3 * x[1] * x[2] + 2 * x[2] + 1, lambda x: [2 * x[0], -3 * x[2], -3 * x[1] + 2]),
    "recip": (lambda x: 6 / x[0] + 2 / (x[1] * x[2]), lambda x: [-6 / x[0] ** 2, -2 / (x[1] ** 2 * x[2]), -2 / (x[1] * x[2] ** 2)]),
    "lin": (lambda x: 2 * x[0] - 5 * x[1] + 0.5 * x[2] - 4, lambda x: [2, -5, 0.5]),
    "flat": (lambda x: x[1] ** 3 - 12 * x[1] + 5, lambda x: [0, 3 * x[1] ** 2 - 12, 0]),
    "mix": (lambda x: math.exp(0.2 * x[0]) * x[2] - math.log(x[1]) - 4 * math.sqrt(x[0]), lambda x: [0.2 * math.exp(0.2 * x[0]) * x[2] - 2 / math.sqrt(x[0]), -1 / x[1], math.exp(0.2 * x[0])]),
}
LINA = {"l1": ([1.0, -2.0, 0.5], 3.0, "<"), "l2": ([0.0, 1.5, -1.0], -1.0, ">"), "l3": ([1.0, 1.0, 1.0], 6.0, "=")}
LIM = [(0.45, 4.4), (0.36, 4.0), (0.18, 6.5)]  # close to the extreme expansion points
PTS = [[1.0, 2.0, 3.0], [2.5, 0.4, 1.0], [0.5, 0.5, 5.0], [4.0, 3.0, 0.2], [1.0, 1.0, 1.0]]


def build(case, structural=False):
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.objective import ObjectiveFunction
    from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
    from metku.optimization.variables import Variable
    st = NS(members=[NS(A=1.0) for _ in range(3)], result={})

    def calculate(load_id, support_method="ZERO", design=True):
        st.result[load_id] = [m.A for m in st.members]
    st.calculate = calculate
    pr = OptimizationProblem("p", structure=st)
    for i in range(3):
        pr.add(Variable(f"x{i}", *LIM[i], target={"property": "A", "objects": [st.members[i]]}, value=1.5 + i))
    of = FUNS[case["obj"]]
    if case["how"] == "fea":
        pr.add(ObjectiveFunction("f", lambda x: of[0](st.result["ALL"]), fea_required=True))
    elif case["how"] == "max":
        pr.add(ObjectiveFunction("f", of[0], obj_type="MAX"))
    else:
        pr.add(ObjectiveFunction("f", of[0]))
    if case["how"] == "grad":
        import numpy as np
        pr.grad = lambda x: np.array(of[1](x), dtype=float)
    for c in case["cons"]:
        if c in LINA:
            pr.add(LinearConstraint(LINA[c][0], LINA[c][1], LINA[c][2], name=c))
        else:
            g = FUNS[c]
            if case["how"] == "fea":
                pr.add(NonLinearConstraint(lambda x, g=g: g[0](st.result[2]), "<", name=c, fea_required=True, load_ids=[2]))
            elif case["how"] == "grad":
                import numpy as np
                pr.add(NonLinearConstraint(g[0], "<", name=c, grad=lambda x, g=g: np.array(g[1](x), dtype=float)))
            else:
                pr.add(NonLinearConstraint(g[0], "<", name=c))
    for i, v in case["lock"]:
        pr.all_vars[i].lock(v)
    return pr, st


LOCKS = [[], [[0, 1.25]], [[1, 2.0]], [[2, 0.75]], [[0, 2.0], [1, 0.5]], [[0, 1.25], [2, 3.0]], [[1, 2.0], [2, 0.75]]]
CONSETS = [["l1", "poly", "recip", "l2", "flat"], ["mix", "lin", "l3", "recip"], ["recip", "l2"]]


def cases(tier):
    for o in FUNS:
        for p in range(len(PTS)):
            for how in ("plain", "max", "grad", "fea"):
                for lock in LOCKS:
                    if how == "grad" and lock:
                        continue
                    for k, cs in enumerate(CONSETS):
                        if tier == "quick" and k == 2 and p > 1:
                            continue
                        yield {"obj": o, "pt": p, "how": how, "lock": lock, "cons": cs}


def full_point(case):
    full = list(PTS[case["pt"]])
    for i, v in case["lock"]:
        full[i] = v
    free = [i for i in range(3) if i not in [k for k, _ in case["lock"]]]
    return full, free


def expected(name, full, how="plain"):
    if name in LINA:
        a, b, _ = LINA[name]
        return sum(p * q for p, q in zip(a, full)) - b, list(a)
    s = -1 if how == "max" else 1
    return s * FUNS[name][0](full), [s * g for g in FUNS[name][1](full)]


def undisturbed(ctx, case, pr, st, full, what):
    """the problem itself is where it was put, and still evaluates as before"""
    import numpy as np
    ctx.expect([float(v.value) for v in pr.all_vars] == full and [m.A for m in st.members] == [full[i] if v.value is not None else None for i, v in enumerate(pr.all_vars)],
               "left-at-point", f"{case}: after {what} the variables are at {[v.value for v in pr.all_vars]}, the structure at {[m.A for m in st.members]}, expected {full}")
    ctx.expect([c.problem is pr for c in pr.cons] == [True] * len(pr.cons), "constraints-taken", f"{case}: after {what} constraints belong to another problem")
    y = [v + 0.3 * (i + 1) for i, v in enumerate(full)]
    for i, v in case["lock"]:
        y[i] = v
    free = [i for i in range(3) if i not in [k for k, _ in case["lock"]]]
    for c, con in zip(case["cons"], pr.cons):
        ctx.eq(float(con(np.array([y[i] for i in free]))), expected(c, y)[0], "after-approximation", f"{case}: constraint {c} after {what}", 1e-9, 1e-9)


def run_linear(case, ctx):
    import numpy as np
    pr, st = build(case)
    full, free = full_point(case)
    x = np.array([full[i] for i in free])
    A, B, df, fx = pr.linearize(x.copy())
    f0, g0 = expected(case["obj"], full, case["how"])
    ctx.eq(float(fx), f0, "objective", f"{case}: objective at the point", 1e-9, 1e-9)
    ctx.eq([float(v) for v in df], [g0[i] for i in free], "gradient", f"{case}: gradient of the objective", 2e-4, 2e-4)
    ctx.expect(A.shape == (len(case["cons"]), len(free)), "shape", f"{case}: shape {A.shape}")
    for k, c in enumerate(case["cons"]):
        v, g = expected(c, full)
        ctx.eq([float(t) for t in A[k]], [g[i] for i in free], "jacobian", f"{case}: gradient of {c}", 2e-4, 2e-4)
        ctx.eq(float(A[k] @ x - B[k]), v, "value", f"{case}: linearised {c} at the point", 1e-8, 1e-8)
        if c in LINA or c == "lin":
            y = x + np.array([0.5, -0.25, 1.0])[:len(free)]
            z = list(full)
            for i, t in zip(free, y):
                z[i] = float(t)
            ctx.eq(float(A[k] @ y - B[k]), expected(c, z)[0], "linear-exact", f"{case}: linear {c} away from the point", 2e-6, 2e-5)
    undisturbed(ctx, case, pr, st, full, "linearisation")
    pr.linearize(x.copy(), only_potential=True)
    pot = [c for c, con in zip(case["cons"], pr.cons) if con.type == "=" or (expected(c, full)[0] >= -0.25 if con.type == "<" else expected(c, full)[0] <= 0.25)]
    A2, B2, _, _ = pr.linearize(x.copy(), only_potential=True)
    ctx.expect(A2.shape[0] == len(pot), "potential", f"{case}: {A2.shape[0]} potentially active constraints, expected {pot}")
    if A2.shape[0] == len(pot):
        for k, c in enumerate(pot):
            ctx.eq(float(A2[k] @ x - B2[k]), expected(c, full)[0], "potential-value", f"{case}: linearised potentially active {c}", 1e-8, 1e-8)
    ctx.state((case["obj"], case["pt"], case["how"], canon(case["lock"])))


def border_cases(tier):
    """constraints exactly at, just inside and just outside the limit of potential activity"""
    for n in (1, 2, 3):
        for i in range(n):
            for sg in (1.0, -1.0):
                for off in (0.0, 2.0**-21, -(2.0**-21), 1.0, -1.0):
                    for t in "<>":
                        for nl in (0, 1):
                            for twice in (0, 1):
                                yield {"n": n, "i": i, "sg": sg, "off": off, "t": t, "nl": nl, "twice": twice}


def run_border(case, ctx):
    import numpy as np
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.objective import ObjectiveFunction
    from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
    from metku.optimization.variables import Variable
    n, i = case["n"], case["i"]
    pr = OptimizationProblem("p")
    for k in range(n):
        pr.add(Variable(f"x{k}", 0.0, 8.0, value=1.0))
    pr.add(ObjectiveFunction("f", lambda x: sum(x)))
    lim = (-0.25 if case["t"] == "<" else 0.25) + case["off"]
    b = case["sg"] * 2.0 - lim  # g(2) = lim
    if case["nl"]:
        pr.add(NonLinearConstraint(lambda x: case["sg"] * x[i] - b, case["t"], name="border"))
    else:
        pr.add(LinearConstraint([case["sg"] if k == i else 0.0 for k in range(n)], b, case["t"], name="border"))
    pr.add(NonLinearConstraint(lambda x: x[0] - 2.0, "=", name="eq"))
    x = np.full(n, 2.0)
    for _ in range(1 + case["twice"]):
        A, B, _, _ = pr.linearize(x.copy(), only_potential=True)
    pot = [c.name for c in pr.cons if c.potential]
    want = ["border"] * (lim >= -0.25 if case["t"] == "<" else lim <= 0.25) + ["eq"]
    ctx.expect(pot == want and A.shape == (len(want), n), "border", f"{case}: {A.shape[0]} rows, potentially active {pot}, expected {want}")
    ctx.state((n, i, case["off"]))


def conlin_ref(f, g, xk, x):
    return f + sum(d * (b - a) if d >= 0 else d * a / b * (b - a) for d, a, b in zip(g, xk, x))


def mma_ref(f, g, xk, x, L, U):
    s = f
    for d, a, b, l, u in zip(g, xk, x, L, U):
        if d >= 0:
            p = (u - a) ** 2 * d
            s += p / (u - b) - p / (u - a)
        else:
            q = -(a - l) ** 2 * d
            s += q / (b - l) - q / (a - l)
    return s


def run_approx(case, ctx):
    import numpy as np
    for kind in ("conlin", "mma"):
        pr, st = build(case)
        full, free = full_point(case)
        xf = [full[i] for i in free]
        x = np.array(xf)
        if kind == "conlin":
            ap = pr.conlin(x.copy())
            ref = lambda f, g, y: conlin_ref(f, g, xf, y)
            steps = [1.0, 0.7, 1.6]
        else:
            L, U = np.array([0.2 * v for v in xf]), np.array([3.0 * v + 1 for v in xf])
            ap = pr.mma(x.copy(), U, L)
            ref = lambda f, g, y: mma_ref(f, g, xf, y, list(L), list(U))
            steps = [1.0, 0.9, 1.15]
            for v, a, l, u, (lo, hi) in zip(ap.vars, xf, L, U, [(w.lb, w.ub) for w in pr.vars]):
                ctx.expect(l < v.lb <= a <= v.ub < u and v.lb >= lo and v.ub <= hi, "move-limits", f"{case}: bounds {v.lb} {v.ub} of the approximation at {a}, asymptotes {l} {u}")
        undisturbed(ctx, case, pr, st, full, kind)
        ctx.expect(len(ap.vars) == len(free) and len(ap.cons) == len(case["cons"]), "size", f"{case}: {kind} has {len(ap.vars)} variables, {len(ap.cons)} constraints")
        f0, g0 = expected(case["obj"], full, case["how"])
        for pat in itertools.product(steps, repeat=len(free)):
            y = [a * t for a, t in zip(xf, pat)]
            at = all(t == 1.0 for t in pat)
            tol = 1e-8 if at else 1e-4
            ctx.eq(float(ap.obj(np.array(y))), ref(f0, [g0[i] for i in free], y), kind + ("-value" if at else "-model"), f"{case}: {kind} objective at {y}", tol, tol * (1 + abs(f0)))
            if sum(t != 1.0 for t in pat) > 1:
                continue
            z = list(full)
            for i, t in zip(free, y):
                z[i] = t
            for c, con in zip(case["cons"], ap.cons):
                v, g = expected(c, full)
                want = expected(c, z)[0] if c in LINA else ref(v, [g[i] for i in free], y)
                if any(not var.lb <= t <= var.ub for var, t in zip(ap.vars, y)):
                    continue
                ctx.eq(float(con(np.array(y))), want, kind + ("-constraint" if at else "-constraint-model"), f"{case}: {kind} of {c} at {y}", tol, tol * (1 + abs(v)))
    ctx.state((case["obj"], case["pt"], case["how"], canon(case["lock"])))


def fun_cases(tier):
    for f in FUNS:
        for p in range(len(PTS)):
            for a in (0.1, 0.5, 0.9):
                yield {"fun": f, "pt": p, "a": a}


def run_fun(case, ctx):
    """the function-level tools on their own"""
    import numpy as np
    import metku.optimization.structopt  # the modules import each other: this order works
    from metku.optimization import opt_functions as of
    f, g = FUNS[case["fun"]]
    xk = PTS[case["pt"]]
    x = np.array(xk)
    fk, gk = f(xk), g(xk)
    ctx.eq([float(v) for v in of.NumGrad(f, x.copy())], gk, "numgrad", f"{case}: numerical gradient", 2e-4, 2e-4)
    a, b, c = of.Linearize(f, x.copy(), lambda y: np.array(g(y), dtype=float))
    ctx.eq([float(v) for v in a] + [float(b), float(c)], gk + [fk, sum(p * q for p, q in zip(gk, xk))], "linearize", f"{case}: linearisation", 1e-9, 1e-9)
    a, b, c = of.Linearize(f, x.copy())
    ctx.eq([float(v) for v in a] + [float(b), float(c)], gk + [fk, sum(p * q for p, q in zip(gk, xk))], "linearize-numerical", f"{case}: linearisation by differences", 1e-3, 1e-3)
    L, U = x * case["a"], x * (2 - case["a"]) + 0.5
    m = of.MMAFunction(x, fk, np.array(gk, dtype=float), L, U)
    h = of.mma_fun(x, fk, np.array(gk, dtype=float), L, U)
    cl = of.conlin_fun(x, fk, np.array(gk, dtype=float))
    for t in itertools.product([0.0, 0.3, -0.3], repeat=3):
        y = [v + s * ((u - v) if s > 0 else (v - l)) for v, s, l, u in zip(xk, t, L, U)]
        want = mma_ref(fk, gk, xk, y, list(L), list(U))
        ctx.eq(float(m(np.array(y))), want, "mma-class", f"{case}: MMA at {y}", 1e-9, 1e-9)
        ctx.eq(float(h(np.array(y))), want, "mma-fun", f"{case}: MMA at {y}", 1e-9, 1e-9)
        ctx.eq(float(cl(np.array(y))), conlin_ref(fk, gk, xk, y), "conlin-fun", f"{case}: convex-linear at {y}", 1e-9, 1e-9)
        gr = [((u - a_) ** 2 * g_ / (u - b_) ** 2 if g_ >= 0 else (a_ - l) ** 2 * g_ / (b_ - l) ** 2) for g_, a_, b_, l, u in zip(gk, xk, y, L, U)]
        ctx.eq([float(v) for v in m.grad(np.array(y))], gr, "mma-gradient", f"{case}: MMA gradient at {y}", 1e-9, 1e-9)
    ctx.state((case["fun"], case["pt"], case["a"]))


# ---------------------------------------------------------------- index and discrete variables in a linearisation
def index_cases(tier):
    for k in range(4):
        for d in range(4):
            for lock in (None, 0, 1, 2):
                for o in ("sum", "prod"):
                    yield {"k": k, "d": d, "lock": lock, "obj": o}


def run_index(case, ctx):
    import numpy as np
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.objective import ObjectiveFunction
    from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
    from metku.optimization.variables import Variable, IndexVariable, DiscreteVariable
    tab = [1.0, 2.0, 4.0, 8.0]
    st = [NS(A=0.0) for _ in range(3)]
    t = [{"property": "A", "objects": [s]} for s in st]
    vs = [IndexVariable("i", values=list(tab), target=t[0], value=0), DiscreteVariable("d", values=list(tab), target=t[1], value=1.0), Variable("c", 0.5, 9.0, target=t[2], value=2.0)]
    F = (lambda a: a[0] + 2 * a[1] - a[2]) if case["obj"] == "sum" else (lambda a: a[0] * a[1] * a[2])
    pr = OptimizationProblem("p", variables=vs)
    pr.add(ObjectiveFunction("f", lambda x: F([s.A for s in st])))
    pr.add(NonLinearConstraint(lambda x: 10 - F([s.A for s in st]) ** 2, "<"))
    pr.add(LinearConstraint([3.0, -1.0, 2.0], 5.0, "<"))
    full = [case["k"], tab[case["d"]], 2.5]
    for v, x in zip(vs, full):
        v.substitute(x)
    if case["lock"] is not None:
        vs[case["lock"]].lock()
    free = [i for i in range(3) if i != case["lock"]]
    x = np.array([float(full[i]) for i in free])
    A, B, df, fx = pr.linearize(x.copy())
    area = lambda p: [tab[int(p[0])], p[1], p[2]]

    def diff(G):
        out = []
        for i in free:
            q = list(full)
            if i == 0:
                h = 1 if full[0] < 3 else -1
            else:
                h = 1e-6
            q[i] += h
            out.append((G(area(q)) - G(area(full))) / h)
        return out
    ctx.eq(float(fx), F(area(full)), "index-objective", f"{case}: objective", 1e-9, 1e-9)
    ctx.eq([float(v) for v in df], diff(F), "index-gradient", f"{case}: differences of the objective", 1e-3, 1e-3)
    G = lambda a: 10 - F(a) ** 2
    ctx.eq([float(v) for v in A[0]], diff(G), "index-jacobian", f"{case}: differences of the constraint", 1e-3, 1e-2)
    ctx.eq([float(v) for v in A[1]], [[3.0, -1.0, 2.0][i] for i in free], "index-linear", f"{case}: coefficients", 1e-12, 1e-12)
    ctx.eq([float(v) for v in A @ x - B], [G(area(full)), 3.0 * full[0] - full[1] + 2 * full[2] - 5], "index-value", f"{case}: linearised constraints at the point", 1e-8, 1e-8)
    ctx.expect([float(v.value) for v in vs] == [float(v) for v in full] and [s.A for s in st] == area(full), "index-left", f"{case}: left at {[v.value for v in vs]} {[s.A for s in st]}")
    ctx.state(canon(case))


def families(tier):
    return [
        Family("linear", lambda: cases(tier), run_linear, "objective x constraint sets x expansion points x gradients (differences, given, structural analysis, maximisation) x locked variables", "complete product"),
        Family("convex", lambda: cases(tier), run_approx, "same problems: convex-linear and moving-asymptote approximations over a grid around the point", "complete product"),
        Family("functions", lambda: fun_cases(tier), run_fun, "function-level approximations x expansion points x asymptotes", "complete product"),
        Family("border", lambda: border_cases(tier), run_border, "constraints at, just inside and just outside the limit of potential activity x variable x sense x form", "complete product, 1-3 variables"),
        Family("index", lambda: index_cases(tier), run_index, "linearisation with index, discrete and locked variables at every table entry", "complete product"),
    ]
