"""P08: objective, constraint, feasibility and merit values are functions of the design point."""
import itertools
import math
from types import SimpleNamespace as NS
from ..core import Family, histories, product_cases, canon

TAB = [1.0, 2.0, 4.0]


def pt(mix, i, p):
    """value of variable i at point p"""
    return PTS[mix[i]][p] + (0.25 * i if mix[i] == "cont" else 0)


class Structure:
    """stand-in for a structure: members with an area, analysed by calculate()"""

    def __init__(self, n):
        self.members = [NS(A=0.0) for _ in range(n)]
        self.result = {}
        self.count = 0

    def areas(self):
        return [m.A for m in self.members]

    def calculate(self, load_id, support_method="ZERO", design=True):
        self.count += 1
        self.result[load_id] = analysis(self.areas(), load_id)


def analysis(a, load_id):
    w = {"ALL": 1.0, 2: 2.0, 3: -1.5}[load_id]
    return w * sum((i + 1.5) * v for i, v in enumerate(a)) + w * w * a[0] * a[-1]


# ---------------------------------------------------------------- the problems
MIX = {"ccc": ["cont"] * 3, "cdi": ["cont", "disc", "index"], "ic": ["index", "cont"], "dcc": ["disc", "cont", "cont"]}
PTS = {"cont": [2.0, 3.5, 5.0], "disc": [1.0, 4.0, 2.0], "index": [0, 2, 1]}
OBJS = ["poly", "maxpoly", "linear", "maxlinear", "attr", "fea"]
CONS = ["lin<", "lin>", "linb=", "poly<", "attr>", "fea<", "fea2>", "fea23<"]


def area(kind, v):
    return TAB[int(v)] if kind == "index" else v


def full_areas(mix, x):
    return [area(k, v) for k, v in zip(mix, x)]


def f_obj(name, mix, x):
    n = len(x)
    if name in ("poly", "maxpoly"):
        v = sum((i + 1) * (a ** 2) for i, a in enumerate(x)) - 3.0 * x[0] * x[-1]
    elif name in ("linear", "maxlinear"):
        v = sum(c * a for c, a in zip([2.0, -1.0, 0.5][:n], x))
    elif name == "attr":
        v = sum((i + 1) * a for i, a in enumerate(full_areas(mix, x)))
    else:
        v = analysis(full_areas(mix, x), "ALL")
    return -v if name.startswith("max") else v


def f_con(name, mix, x, rhs=7.5):
    n = len(x)
    if name.startswith("lin"):
        a = {"lin<": [1.0, -2.0, 3.0], "lin>": [0.5, 0.0, -1.0], "linb=": [2.0, 1.0, 1.0]}[name][:n]
        return sum(p * q for p, q in zip(a, x)) - {"lin<": 4.0, "lin>": -1.0, "linb=": rhs}[name]
    if name == "poly<":
        return x[0] * x[-1] - 2.0 * sum(x) + 1.0
    if name == "attr>":
        return sum(full_areas(mix, x)) - 6.0
    if name == "fea<":
        return analysis(full_areas(mix, x), "ALL") - 20.0
    if name == "fea2>":
        return analysis(full_areas(mix, x), 2) - 50.0
    return analysis(full_areas(mix, x), 2) + 0.5 * analysis(full_areas(mix, x), 3)


def make(mixname, objname, style="add", rhs=None):
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.objective import ObjectiveFunction, LinearObjective
    from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
    from metku.optimization.variables import Variable, DiscreteVariable, IndexVariable
    mix = MIX[mixname]
    n = len(mix)
    rhs = Variable("b", value=7.5) if rhs is None else rhs
    st = Structure(n)
    vs = []
    for i, k in enumerate(mix):
        t = {"property": "A", "objects": [st.members[i]]}
        vs.append(Variable(f"x{i}", 0.5, 8.0, target=t, value=1.0) if k == "cont" else
                  DiscreteVariable(f"x{i}", values=list(TAB), target=t, value=1.0) if k == "disc" else
                  IndexVariable(f"x{i}", values=list(TAB), target=t, value=0))
    for v in vs:
        v.substitute(v.value)
    if objname in ("linear", "maxlinear"):
        obj = LinearObjective("f", [2.0, -1.0, 0.5][:n], obj_type="MAX" if objname[0] == "m" else "MIN")
    elif objname in ("poly", "maxpoly"):
        obj = ObjectiveFunction("f", lambda x: sum((i + 1) * (a ** 2) for i, a in enumerate(x)) - 3.0 * x[0] * x[-1], obj_type="MAX" if objname[0] == "m" else "MIN")
    elif objname == "attr":
        obj = ObjectiveFunction("f", lambda x: sum((i + 1) * m.A for i, m in enumerate(st.members)))
    else:
        obj = ObjectiveFunction("f", lambda x: st.result["ALL"], fea_required=True)
    A = {"lin<": [1.0, -2.0, 3.0], "lin>": [0.5, 0.0, -1.0], "linb=": [2.0, 1.0, 1.0]}
    cons = [LinearConstraint(A["lin<"][:n], 4.0, "<", name="lin<"), LinearConstraint(A["lin>"][:n], -1.0, ">", name="lin>"),
            LinearConstraint(A["linb="][:n], rhs, "=", name="linb="),
            NonLinearConstraint(lambda x: x[0] * x[-1] - 2.0 * sum(x) + 1.0, "<", name="poly<"),
            NonLinearConstraint(lambda x: sum(st.areas()) - 6.0, ">", name="attr>"),
            NonLinearConstraint(lambda x: st.result["ALL"] - 20.0, "<", name="fea<", fea_required=True),
            NonLinearConstraint(lambda x: st.result[2] - 50.0, ">", name="fea2>", fea_required=True, load_ids=[2]),
            NonLinearConstraint(lambda x: st.result[2] + 0.5 * st.result[3], "<", name="fea23<", fea_required=True, load_ids=[2, 3])]
    if style == "ctor":
        pr = OptimizationProblem("p", variables=vs, constraints=cons, objective=obj, structure=st)
    else:
        pr = OptimizationProblem("p", structure=st)
        if style == "add":
            for t in vs + cons + [obj]:
                pr.add(t)
        else:
            pr.add_variables(vs)
            pr.add_constraints(cons)
            pr.add(obj)
    return pr, vs, cons, st


def ops(n):
    out = [("obj", p) for p in (0, 1)] + [(c, p) for c in ("con:lin<", "con:poly<", "con:fea<", "con:fea23<") for p in (0, 1)] + [("all", 0), ("all", 1), ("lin", 0), ("lin", 1)]
    out += [("lock", i) for i in range(n)] + [("unlock", i) for i in range(n)] + [("lockat", 0), ("lockat", n - 1), ("direct", 0), ("feasible", 0), ("rhs", 0)]
    return out


def hist_cases(tier):
    for mix in MIX:
        n = len(MIX[mix])
        al = ops(n)
        ok = lambda w, a: not (w and w[-1] == a)
        for o in OBJS:
            for w in histories(al, 3 if tier == "thorough" else 2, ok, 1):
                yield {"mix": mix, "obj": o, "ops": w}
        small = [("obj", 0), ("con:fea<", 0), ("con:fea<", 1), ("con:fea23<", 1), ("con:lin<", 0), ("lin", 1), ("lock", 0), ("lock", n - 1), ("unlock", 0), ("lockat", 0), ("direct", 0)]
        for o in ("fea", "poly", "attr"):
            if tier == "quick" and (mix == "dcc" or o == "poly" and mix != "cdi"):
                continue
            for w in histories(small, 4 if tier == "thorough" else 3, ok, 3):
                yield {"mix": mix, "obj": o, "ops": w}
            if mix == "cdi" and o == "fea" and tier == "quick":
                for w in histories(small, 4, ok, 4):
                    yield {"mix": mix, "obj": o, "ops": w}


def run_hist(case, ctx):
    import numpy as np
    mix = MIX[case["mix"]]
    n = len(mix)
    from metku.optimization.variables import Variable
    right = Variable("b", value=7.5)  # the right-hand side of a linear constraint can be a variable
    pr, vs, cons, st = make(case["mix"], case["obj"], ["add", "ctor", "bulk"][len(case["ops"]) % 3], right)
    rhs = 7.5
    val = [1.0 if k != "index" else 0 for k in mix]
    locked = [False] * n
    byname = {c.name: c for c in cons}

    def at(p):
        """free vector of point p and the full point"""
        full = [val[i] if locked[i] else pt(mix, i, p) for i in range(n)]
        return [full[i] for i in range(n) if not locked[i]], full
    for op in case["ops"]:
        k, a = op
        if k == "rhs":
            rhs = 2.25
            right.substitute(rhs)
            continue
        if k == "lock":
            vs[a].lock()
            locked[a] = True
            continue
        if k == "unlock":
            vs[a].unlock()
            locked[a] = False
            continue
        if k == "lockat":
            if not locked[a]:
                val[a] = pt(mix, a, 2)
            vs[a].lock(pt(mix, a, 2))
            locked[a] = True
            continue
        if k == "direct":
            if not locked[a]:
                val[a] = pt(mix, a, 2)
            vs[a].substitute(pt(mix, a, 2))
            continue
        if k == "feasible":
            got = pr.feasible()
            g = [f_con(c, mix, val, rhs) for c in CONS]
            want = all(v <= 1e-4 if c[-1] == "<" else v >= -1e-4 if c[-1] == ">" else abs(v) <= 1e-4 for c, v in zip(CONS, g))
            ctx.expect(bool(got) == want, "feasible", f"{case}: feasible {got}, constraint values {g}")
            continue
        x, full = at(a)
        if not x:
            continue
        arr = np.array(x, dtype=float)
        if k == "obj":
            ctx.eq(float(pr.obj(arr)), f_obj(case["obj"], mix, full), "objective", f"{case} {op}: objective at {full}", 1e-9, 1e-9)
        elif k.startswith("con:"):
            c = k[4:]
            ctx.eq(float(byname[c](arr)), f_con(c, mix, full, rhs), "constraint", f"{case} {op}: constraint {c} at {full}", 1e-9, 1e-9)
        elif k == "all":
            g = pr.eval_cons(arr)
            ctx.expect(len(g) == len(CONS), "number", f"{case}: {len(g)} values")
            for c, v in zip(CONS, g):
                ctx.eq(float(v), f_con(c, mix, full, rhs), "constraint", f"{case} {op}: constraint {c} at {full} (all)", 1e-9, 1e-9)
            nl = [c for c in CONS if not c.startswith("lin")]
            for c, v in zip(nl, pr.eval_nonlin_cons(arr)):
                ctx.eq(float(v), f_con(c, mix, full, rhs), "constraint", f"{case} {op}: constraint {c} at {full} (nonlinear)", 1e-9, 1e-9)
            ctx.expect((len(pr.eval_eq_con(arr)), len(pr.eval_ineq_con(arr)), len(pr.eval_nonlin_cons(arr))) == (1, len(CONS) - 1, len(nl)), "number", f"{case}: numbers of equality, inequality and nonlinear constraints")
            for c, v in zip([c for c in CONS if c[-1] == "="], pr.eval_eq_con(arr)):
                ctx.eq(float(v), f_con(c, mix, full, rhs), "constraint", f"{case} {op}: equality {c} at {full}", 1e-9, 1e-9)
            for c, v in zip([c for c in CONS if c[-1] != "="], pr.eval_ineq_con(arr)):
                ctx.eq(float(v), f_con(c, mix, full, rhs) * (-1 if c[-1] == "<" else 1), "constraint", f"{case} {op}: inequality {c} at {full}", 1e-9, 1e-9)
        else:
            if any(m == "index" for m in mix):
                pr.linearize(arr)  # the derivative with respect to an index is a difference: only the side effects matter
            else:
                pr.linearize(arr)
        ctx.expect(list(map(float, arr)) == list(map(float, x)), "argument", f"{case} {op}: the point passed in was changed to {arr}")
        for i in range(n):
            val[i] = full[i]
        ctx.expect([float(v.value) for v in vs] == [float(v) for v in full], "variables", f"{case} {op}: variables at {[v.value for v in vs]}, expected {full}")
        ctx.expect([float(v) for v in st.areas()] == [float(v) for v in full_areas(mix, full)], "structure", f"{case} {op}: structure at {st.areas()}, expected {full_areas(mix, full)}")
        ctx.step()
    ctx.state((case["mix"], case["obj"], canon(val), tuple(locked)))


# ---------------------------------------------------------------- feasibility, penalties, Lagrangian
def merit_cases(tier):
    gv = [-2.0, -0.5, -5e-5, 0.0, 5e-5, 2e-4, 0.5, 3.0]
    for types in itertools.product("<>=", repeat=2):
        for g in itertools.product(gv, repeat=2):
            for bounds in ("wide", "tight"):
                for R in (1.0, 10.0):
                    yield {"types": "".join(types), "g": list(g), "bounds": bounds, "R": R}


def run_merit(case, ctx):
    import numpy as np
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.objective import ObjectiveFunction
    from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
    from metku.optimization.variables import Variable
    from metku.optimization.solvers.optsolver import OptSolver
    R = case["R"]
    lim = [(-1e8, 1e8), (-1e8, 1e8)] if case["bounds"] == "wide" else [(-10.0, 0.25), (-0.25, 10.0)]
    pr = OptimizationProblem("p")
    vs = [Variable(f"x{i}", *lim[i], value=0.0) for i in (0, 1)]
    for v in vs:
        pr.add(v)
    pr.add(LinearConstraint([1.0, 0.0], 0.0, case["types"][0], name="c0"))
    pr.add(NonLinearConstraint(lambda x: x[1], case["types"][1], name="c1"))
    pr.add(ObjectiveFunction("f", lambda x: 3.0 + x[0] ** 2 - x[1]))
    inside = all(lo <= g <= hi for g, (lo, hi) in zip(case["g"], lim))
    x = np.array([max(lo, min(g, hi)) for g, (lo, hi) in zip(case["g"], lim)])
    g = [float(v) for v in x]
    f = 3.0 + g[0] ** 2 - g[1]
    ok = all(v <= 1e-4 if t == "<" else v >= -1e-4 if t == ">" else abs(v) <= 1e-4 for t, v in zip(case["types"], g))
    ctx.expect(bool(pr.feasible(x)) == ok, "feasible", f"{case}: feasible {pr.feasible(x)}")
    s = OptSolver()
    s.problem = pr
    s.X = x
    ctx.expect(bool(s.is_feasible(x)) == ok, "solver-feasible", f"{case}: feasible {s.is_feasible(x)}")
    ctx.eq([float(v) for v in s.calc_constraints()], g, "solver-values", f"{case}: values", 1e-12, 1e-12)
    ie = [float(c(x)) for c in s._create_ieqcons()]
    ctx.eq(ie, [-v if t == "<" else v for t, v in zip(case["types"], g) if t != "="], "solver-inequalities", f"{case}: inequalities", 1e-12, 1e-12)
    ctx.eq([float(c(x)) for c in s._create_eqcons()], [v for t, v in zip(case["types"], g) if t == "="], "solver-equalities", f"{case}: equalities", 1e-12, 1e-12)
    ctx.expect(s._create_bounds() == lim, "solver-bounds", f"{case}: bounds")
    viol = [max(0, v) if t == "<" else max(0, -v) if t == ">" else abs(v) for t, v in zip(case["types"], g)]
    eq = [t == "=" for t in case["types"]]
    if R == 1.0 or not any(eq):
        ctx.eq(float(pr.exact_penalty_fun(R)(x)), R * sum(viol), "exact-penalty", f"{case}: exact penalty", 1e-12, 1e-12)
        ctx.eq(float(pr.exterior_penalty_fun(R, 2)(x)), f + R * sum(v * v for v in viol), "exterior-penalty", f"{case}: exterior penalty", 1e-12, 1e-12)
    if case["bounds"] == "wide" and not any(eq) and all(v < 0 if t == "<" else v > 0 for t, v in zip(case["types"], g)):
        ctx.eq(float(pr.barrier_fun(R)(x)), f - sum(math.log(abs(v)) for v in g) / R, "log-barrier", f"{case}: barrier", 1e-12, 1e-12)
        ctx.eq(float(pr.barrier_fun(R, "inverse")(x)), f + sum(1 / abs(v) for v in g) / R, "inverse-barrier", f"{case}: barrier", 1e-12, 1e-12)
    # augmented Lagrangian over a history of multiplier updates
    mult = [1.0, 1.0]
    lo, hi = [1.0, 1.0], [1.0, 1.0]
    Re = 0.5 * R
    for step in range(3):
        y = x if step != 1 else np.array([0.5 * v for v in x])
        h = [float(v) for v in y]
        F = 3.0 + h[0] ** 2 - h[1]
        for t, v, m in zip(case["types"], h, mult):
            F += -m * v + Re * v * v if t == "=" else R * max(0.5 * m / R + (v if t == "<" else -v), 0) ** 2
        if case["bounds"] == "tight":
            for v, (a, b), l, u in zip(h, lim, lo, hi):
                F += R * max(0.5 * l / R + a - v, 0) ** 2 + R * max(0.5 * u / R + v - b, 0) ** 2
        ctx.eq(float(pr.augmented_lagrangian(R, Re)(y)), F, "lagrangian", f"{case}: augmented Lagrangian after {step} updates", 1e-10, 1e-12)
        pr.update_lag_mult(y, R, Re)
        mult = [m - 2 * Re * v if t == "=" else max(m + 2 * R * (v if t == "<" else -v), 0) for t, v, m in zip(case["types"], h, mult)]
        if case["bounds"] == "tight":
            lo = [max(l + 2 * R * (a - v), 0) for v, (a, b), l in zip(h, lim, lo)]
            hi = [max(u + 2 * R * (v - b), 0) for v, (a, b), u in zip(h, lim, hi)]
        ctx.eq([float(c.mult) for c in pr.cons], mult, "multipliers", f"{case}: multipliers after {step + 1} updates", 1e-10, 1e-12)
        ctx.eq([float(v.lb_mult) for v in vs] + [float(v.ub_mult) for v in vs], lo + hi, "bound-multipliers", f"{case}: multipliers of bounds after {step + 1} updates", 1e-10, 1e-12)
    ctx.state((case["types"], canon(g), case["bounds"], R))


def families(tier):
    return [
        Family("histories", lambda: hist_cases(tier), run_hist, "words over evaluate / linearise / lock / unlock / set directly, four mixes of variables, six objectives, eight constraints", "depth 2-3, one mix 4 (3-4)"),
        Family("merit", lambda: merit_cases(tier), run_merit, "constraint types x values around the tolerance x bounds x penalty factor", "complete product"),
    ]
