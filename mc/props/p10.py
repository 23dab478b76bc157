"""P10: branch and bound, mixed-integer and linear programming solvers against complete enumeration."""
import itertools
from ..core import Family, canon
from ..ref import milp as ref

# variables: ("c", lb, ub) continuous, ("i", lb, ub) integer, ("b",) binary, ("d", values) discrete
C1, C2, C3 = ["c", 0, 4], ["c", -1.5, 2], ["c", 1, 3]
I1, I2, I3 = ["i", 0, 3], ["i", -2, 2], ["i", 1, 4]
D1, D2, D3 = ["d", [1, 2.5, 4]], ["d", [-1, 0.5, 3]], ["d", [3, 0.5, 1, 2]]
B = ["b"]
OBJ2 = [[1, 1], [-1, 2], [2, -3], [-2, -1], [0, 1], [0.1, -0.3]]
ROWS2 = [([1, 1], 3), ([2, -1], 1), ([-1, 2], 0.5), ([0.1, 0.3], 0.7), ([1, 0], 1.5), ([0, -1], -2), ([-1, -1], -4.5)]
OBJ3 = [[1, 2, -1], [-1, -1, -1], [3, -2, 1]]
ROWS3 = [([1, 1, 1], 4), ([2, -1, 1], 1.5), ([-1, 3, 0], 2), ([0.2, 0.3, -0.1], 0.5), ([1, 0, -2], -1)]
SENSES = ["<", ">", "="]
LP2 = [[C1, C2], [C3, C1], [C2, C3]]
LP3 = [[C1, C2, C3]]
MI2 = [[I1, I2], [I1, D1], [D1, D2], [I2, C1], [D2, C2], [B, C3], [B, I3], [D3, I1]]
MI3 = [[I1, I2, I3], [D1, B, C1], [I1, D2, C2], [B, B, D3], [C1, I2, C3]]


def conlists(rows, senses, upto):
    yield []
    for r in rows:
        for s in senses:
            yield [[r[0], s, r[1]]]
    if upto >= 2:
        for (r1, r2) in itertools.combinations(rows, 2):
            for s1 in senses:
                for s2 in senses:
                    yield [[r1[0], s1, r1[1]], [r2[0], s2, r2[1]]]


def lp_cases(tier):
    for algo in ("ortools", "gurobi"):
        for vs in LP2:
            for c in OBJ2:
                for sense in ("MIN", "MAX"):
                    for cons in conlists(ROWS2, SENSES, 2):
                        yield {"how": algo, "vars": vs, "c": c, "sense": sense, "cons": cons, "lock": []}
        for lock in ([], [[0, 1]], [[1, 1]], [[2, 2]], [[0, 2], [2, 1]]):
            for c in OBJ3:
                for sense in ("MIN", "MAX"):
                    for cons in conlists(ROWS3, ["<", ">"] if tier == "quick" else SENSES, 2):
                        yield {"how": algo, "vars": LP3[0], "c": c, "sense": sense, "cons": cons, "lock": lock}


def mi_cases(tier, how):
    quick = tier == "quick"
    for vs in MI2:
        for c in OBJ2:
            for sense in ("MIN", "MAX"):
                for cons in conlists(ROWS2, SENSES, 1 if quick and how == "bnb-gurobi" else 2):
                    yield {"how": how, "vars": vs, "c": c, "sense": sense, "cons": cons, "lock": []}
    for vs in MI3:
        for lock in ([], [[0, 1]], [[1, 0.5]], [[2, 1]]):
            if lock and vs[lock[0][0]][0] != "c" and lock[0][1] not in values(vs[lock[0][0]]):
                continue
            for c in OBJ3[:2] if quick else OBJ3:
                for sense in ("MIN", "MAX") if not quick else ("MIN",):
                    for cons in conlists(ROWS3, SENSES if not quick else ["<", ">"], 2):
                        yield {"how": how, "vars": vs, "c": c, "sense": sense, "cons": cons, "lock": lock}


def values(v):
    if v[0] == "i":
        return list(range(v[1], v[2] + 1))
    if v[0] == "b":
        return [0, 1]
    return list(v[1])


def refvars(vs):
    return [("c", v[1], v[2]) if v[0] == "c" else ("d", values(v)) for v in vs]


def build(case, quad=None):
    import metku.optimization.structopt as so
    from metku.optimization.objective import LinearObjective, ObjectiveFunction
    from metku.optimization.variables import Variable, IntegerVariable, BinaryVariable, DiscreteVariable
    vs = []
    for k, v in enumerate(case["vars"]):
        if v[0] == "c":
            vs.append(Variable(f"x{k}", v[1], v[2]))
        elif v[0] == "i":
            vs.append(IntegerVariable(f"x{k}", v[1], v[2]))
        elif v[0] == "b":
            vs.append(BinaryVariable(f"x{k}"))
        else:
            vs.append(DiscreteVariable(f"x{k}", values=list(v[1])))
    for v in vs:
        v.value = v.ub
    for k, p in enumerate(case.get("prio", [])):
        vs[k].branch_priority = p
    pr = so.OptimizationProblem("p", variables=vs)
    if quad is None:
        pr.add(LinearObjective("f", list(case["c"]), case["sense"]))
    else:
        pr.add(ObjectiveFunction("f", quad))
    for j, (a, s, b) in enumerate(case["cons"]):
        pr.add(so.LinearConstraint(list(a), b, s, name=f"g{j}"))
    for i, v in case["lock"]:
        vs[i].lock(v)
    return pr, vs


def check_point(case, ctx, pr, vs, fun, fbest, xbest, want, tag, tol):
    """reported point: admissible, feasible and with the objective reported, which is the best one"""
    msg = f"{tag} {case}"
    if want is None:
        ctx.expect(xbest is None or len(xbest) == 0, "infeasible", f"{msg}: reports {xbest} although no admissible point exists")
        return
    if not ctx.expect(xbest is not None and len(xbest) > 0, "lost", f"{msg}: no point although {float(want)} can be reached"):
        return
    full, it = [], iter([float(v) for v in xbest])
    lock = dict((i, v) for i, v in case["lock"])
    for i in range(len(vs)):
        full.append(float(lock[i]) if i in lock else next(it))
    for i, v in enumerate(case["vars"]):
        if i in lock:
            continue
        if v[0] == "c":
            ctx.expect(v[1] - tol <= full[i] <= v[2] + tol, "bounds", f"{msg}: variable {i} = {full[i]}")
        else:
            ctx.expect(min(abs(full[i] - w) for w in values(v)) <= 1e-3, "discrete", f"{msg}: variable {i} = {full[i]} is not one of its values")
    for a, s, b in case["cons"]:
        g = sum(p * q for p, q in zip(a, full)) - b
        ok = g <= 5 * tol if s == "<" else g >= -5 * tol if s == ">" else abs(g) <= 5 * tol
        ctx.expect(ok, "feasible", f"{msg}: reported point {full} breaks {a} {s} {b}")
    sign = -1 if case.get("sense") == "MAX" else 1
    ctx.eq(float(fbest), sign * fun(full), "objective", f"{msg}: objective at the reported point {full}", 1e-4, 5 * tol)
    ctx.eq(sign * float(fbest), float(want), "optimum", f"{msg}: best objective", 1e-4, 5 * tol)
    ctx.state((canon([round(v, 4) for v in full]), round(float(want), 6), case["how"]))


def snapshot(pr):
    return [[(v.lb, v.ub, v.locked) for v in pr.all_vars], [(list(map(float, c.a)), c.b, c.type, c.problem is pr) for c in pr.cons], len(pr.all_vars), pr.obj.obj_type, pr.obj.problem is pr]


def lin(case):
    return lambda x: sum(p * q for p, q in zip(case["c"], x))


def solve(case, pr):
    how = case["how"]
    if how in ("ortools", "gurobi"):
        from metku.optimization.solvers.lp import LP
        sol = LP(how)
        sol.solve(pr)
    elif how == "milp":
        from metku.optimization.solvers.milp import MILP
        sol = MILP()
        sol.solve(pr)
    else:
        from metku.optimization.solvers.bnb import BnB
        if how == "bnb-slsqp":
            from metku.optimization.solvers.slsqp import SLSQP
            lb = SLSQP()
        else:
            from metku.optimization.solvers.lp import LP
            lb = LP("ortools" if how == "bnb-ortools" else "gurobi")
        sol = BnB(pr, lb)
        x0 = None
        if how == "bnb-slsqp":
            x0 = [v.lb + 0.4 * (v.ub - v.lb) for v in pr.vars]
        f, x = sol.solve(pr, x0=x0, maxiter=5000)
        return sol, f, x
    # linear solvers report the point in X
    x = sol.X
    f = None
    if len(x):
        f = pr.obj(x)
    return sol, f, x


def licensed(e):
    return type(e).__name__ == "GurobiError"


def run_linear(case, ctx):
    want, _ = ref.optimum(refvars(case["vars"]), case["c"], case["cons"], case["sense"], case["lock"])
    pr, vs = build(case)
    before = snapshot(pr)
    try:
        sol, f, x = solve(case, pr)
    except Exception as e:
        if licensed(e):
            ctx.undefined += 1
            return
        raise
    ctx.step()
    check_point(case, ctx, pr, vs, lin(case), f, x, want, "linear", 1e-5 if case["how"] != "bnb-slsqp" else 1e-3)
    ctx.expect(bool(sol.feasible) == (want is not None), "flag", f"{case}: feasible flag {sol.feasible}, optimum {want}")
    ctx.expect(snapshot(pr) == before, "problem", f"{case}: the problem itself was changed: {before} -> {snapshot(pr)}")


# ---------------------------------------------------------------- convex quadratic objectives
TGT = [[0.3, 1.7, 2.2], [1.5, -0.6, 3.4], [2.49, 0.51, 1.2], [-1, 5, 0]]
WGT = [[1, 1, 1], [1, 4, 0.5]]


def quad_cases(tier):
    quick = tier == "quick"
    for vs in ([[I1, I2], [I1, D1], [D1, D2], [D3, I1], [B, I3]] + [[I1, I2, I3], [D1, B, D3]]):
        n = len(vs)
        for t in TGT:
            for w in WGT:
                for cross in (0, 0.5):
                    rows = ROWS2 if n == 2 else ROWS3
                    for cons in conlists(rows[:4] if quick else rows, ["<", ">"], 2):
                        yield {"how": "bnb-slsqp", "vars": vs, "t": t, "w": w, "x": cross, "cons": cons, "lock": [], "sense": "MIN"}
                    for prio in ([0, 1], [1, 0]):
                        yield {"how": "bnb-slsqp", "vars": vs, "t": t, "w": w, "x": cross, "cons": [[rows[0][0], "<", rows[0][1]]], "lock": [], "sense": "MIN", "prio": prio}
                        yield {"how": "bnb-slsqp", "vars": vs, "t": t, "w": w, "x": cross, "cons": [[rows[1][0], ">", rows[1][1]]], "lock": [[1, values(vs[1])[1]]], "sense": "MIN", "prio": prio}


def run_quad(case, ctx):
    t, w, cr = case["t"], case["w"], case["x"]

    def q(x):
        s = sum(wi * (xi - ti) ** 2 for xi, ti, wi in zip(x, t, w))
        return s + cr * (x[0] - t[0]) * (x[1] - t[1])
    best = None
    lock = dict((i, v) for i, v in case["lock"])
    for p in itertools.product(*[[lock[i]] if i in lock else values(v) for i, v in enumerate(case["vars"])]):
        if ref.sat([([ref.fr(a) for a in r], s, ref.fr(b)) for r, s, b in case["cons"]], [ref.fr(v) for v in p]):
            best = q(p) if best is None else min(best, q(p))
    pr, vs = build(case, quad=q)
    before = snapshot(pr)
    sol, f, x = solve(case, pr)
    ctx.step()
    check_point(case, ctx, pr, vs, q, f, x, best, "quadratic", 1e-3)
    ctx.expect(bool(sol.feasible) == (best is not None), "flag", f"{case}: feasible flag {sol.feasible}, optimum {best}")
    ctx.expect(snapshot(pr) == before, "problem", f"{case}: the problem itself was changed: {before} -> {snapshot(pr)}")


# ---------------------------------------------------------------- deeper search trees
I9, IM, D5, D6 = ["i", 0, 9], ["i", -4, 5], ["d", [1.2, 2.9, 4.1, 6.6, 9.3]], ["d", [-3.1, -1.2, 0.4, 1.9, 3.7, 5.2]]
C9 = ["c", 0, 9]
DEEP = [[I9, I9, I9], [I9, D5, IM], [D5, D6, I9], [I9, C9, D6], [I9, I9, I9, B], [B, D5, I9, C9]]
DEEPC = [[-7.1, -5.3, -3.2, -2.1], [5, -4, 3.3, -1], [-2, -3, -5.1, -4.2]]
DEEPR = [[[[7, 5, 3, 2], "<", 38.5], [[2, 3, 5, 4], "<", 31.3]], [[[3, -2, 2, 1], "<", 7.3], [[-1, 3, 1, -2], "<", 8.9], [[1, 1, 1, 1], "<", 13.7]],
         [[[6, 4, 9, 3], "<", 47.9], [[1, -1, 1, 2], ">", 1.7]], [[[2, 5, -3, 1], ">", 6.1], [[4, 1, 3, 2], "<", 29.7], [[1, 3, 2, -1], ">", 4.9]], [[[4, 6, 10, 8], "<", 51], [[5, 2, 3, 1], "<", 27.7]]]


def deep_cases(tier):
    for vs in DEEP:
        n = len(vs)
        for c in DEEPC:
            for sense in ("MIN", "MAX"):
                for rows in DEEPR:
                    for prio in ([0] * n, [0] * (n - 1) + [1], [2, 1] + [0] * (n - 2)):
                        cons = [[a[:n], s, b] for a, s, b in rows]
                        yield {"how": "bnb-ortools", "vars": vs, "c": c[:n], "sense": sense, "cons": cons, "lock": [], "prio": prio}
                        if tier != "quick" or prio == [0] * n:
                            yield {"how": "bnb-slsqp", "vars": vs, "c": c[:n], "sense": sense, "cons": cons, "lock": [], "prio": prio}
                            yield {"how": "milp", "vars": vs, "c": c[:n], "sense": sense, "cons": cons, "lock": []}


run_deep = run_linear


# convex nonlinear constraints on discrete designs
NL = {"disc": (lambda x: x[0] ** 2 + x[1] ** 2 - 20.5, "<"), "recip": (lambda x: 8.3 / (x[0] + 4.5) + 3.1 / (x[1] + 4.2) - 1.55, "<"), "concave": (lambda x: 12.2 - (x[0] - 1) ** 2 - x[1] ** 2 / 2, ">"), "exp": (lambda x: 2.718281828 ** (0.4 * x[0]) + x[-1] - 6.3, "<")}


def nl_cases(tier):
    for vs in ([I9, I9], [I9, D5], [D5, D6], [IM, IM], [IM, D6, B], [I9, D6, IM]):
        for t in ([2.6, 3.4, 1.1], [6.3, 1.5, 0.4], [-2, 7.7, 2.5], [4.45, 4.55, 0.5]):
            for w in WGT:
                for k in range(1, len(NL) + 1):
                    for names in itertools.combinations(sorted(NL), k):
                        for cons in ([], [[[1, 1, 1][:len(vs)], "<", 7.3]]):
                            if tier == "quick" and k > 2:
                                continue
                            yield {"how": "bnb-slsqp", "vars": vs, "t": t, "w": w, "x": 0, "nl": list(names), "cons": cons, "lock": [], "sense": "MIN"}


def run_nl(case, ctx):
    from metku.optimization.constraints import NonLinearConstraint
    t, w = case["t"], case["w"]

    def q(x):
        return sum(wi * (xi - ti) ** 2 for xi, ti, wi in zip(x, t, w))

    def good(p):
        return all((NL[k][0](p) <= 0) if NL[k][1] == "<" else (NL[k][0](p) >= 0) for k in case["nl"])
    best = None
    for p in itertools.product(*[values(v) for v in case["vars"]]):
        if any(abs(NL[k][0](p)) < 1e-3 for k in case["nl"]):
            ctx.undefined += 1
            return
        if good(p) and ref.sat([([ref.fr(a) for a in r], s, ref.fr(b)) for r, s, b in case["cons"]], [ref.fr(v) for v in p]):
            best = q(p) if best is None else min(best, q(p))
    pr, vs = build(case, quad=q)
    for k in case["nl"]:
        pr.add(NonLinearConstraint(NL[k][0], NL[k][1], name=k))
    sol, f, x = solve(case, pr)
    check_point(case, ctx, pr, vs, q, f, x, best, "nonlinear", 1e-3)
    if x is not None:
        ctx.expect(good([float(v) for v in x]), "nonlinear-feasible", f"{case}: reported point {x} breaks a constraint")
    ctx.expect(bool(sol.feasible) == (best is not None), "flag", f"{case}: feasible flag {sol.feasible}, optimum {best}")


# ---------------------------------------------------------------- neighbourhoods
def nb_cases(tier):
    for vs in MI2 + MI3:
        for k in (1, 2, 3):
            for pos in itertools.product((0.05, 0.37, 0.71, 1.0), repeat=len(vs)):
                yield {"vars": vs, "k": k, "pos": list(pos), "cons": [], "lock": [], "c": [1] * len(vs), "sense": "MIN"}


def run_nb(case, ctx):
    pr, vs = build(case)
    x, want = [], []
    for v, p in zip(case["vars"], case["pos"]):
        if v[0] == "c":
            x.append(v[1] + p * (v[2] - v[1]))
            want.append([x[-1]])
        else:
            val = values(v)
            x.append(min(val) + p * (max(val) - min(val)))
            ds = sorted(abs(w - x[-1]) for w in val)
            if case["k"] < len(val) and abs(ds[case["k"] - 1] - ds[case["k"]]) < 1e-9:
                ctx.undefined += 1
                return
            want.append(sorted(val, key=lambda w: abs(w - x[-1]))[:case["k"]])
    got = sorted(tuple(float(u) for u in p) for p in pr.discrete_neighborhood(x, case["k"]))
    exp = sorted(tuple(float(u) for u in p) for p in itertools.product(*want))
    ctx.eq([u for p in got for u in p], [u for p in exp for u in p], "neighbours", f"{case}: nearest points of {x}", 1e-12, 1e-12)
    for v, spec, xi in zip(vs, case["vars"], x):
        if spec[0] == "c":
            ctx.eq(v.discrete_violation(xi), 0, "violation", f"{case}: continuous variable")
            continue
        val = values(spec)
        d = min(abs(w - xi) for w in val)
        if spec[0] != "d" or d > 1e-3:
            ctx.eq(v.discrete_violation(xi), d if d > 1e-4 else 0, "violation", f"{case}: distance of {xi} from {val}", 1e-9, 1e-12)
        ctx.expect(v.is_allowed_value(xi) == (d < 1e-6), "allowed", f"{case}: {xi} in {val}: {v.is_allowed_value(xi)}")
        if min(val) < xi < max(val):
            ctx.eq(v.smaller_discrete_value(xi), max(w for w in val if w < xi), "smaller", f"{case}: value below {xi}", 1e-12, 1e-12)
            ctx.eq(v.larger_discrete_value(xi), min(w for w in val if w > xi), "larger", f"{case}: value above {xi}", 1e-12, 1e-12)
    ctx.state((canon(x), case["k"]))


# ---------------------------------------------------------------- histories: the same problem solved again after edits
EDITS = ["lp", "milp", "bnb", "sense", "tighten", "lock", "unlock", "addcon"]


def hist_cases(tier):
    from ..core import histories

    def enabled(w, a):
        if a == "unlock" and w.count("lock") <= w.count("unlock"):
            return False
        if a == "lock" and w.count("lock") > w.count("unlock"):
            return False
        return not (w and w[-1] == a and a not in ("tighten", "sense"))
    for vs in ([I1, D1, C1], [D2, B, I3]):
        for w in histories(EDITS, 4 if tier == "quick" else 5, enabled, 2):
            if w[-1] in ("lp", "milp", "bnb"):
                yield {"vars": vs, "ops": w}


def run_hist(case, ctx):
    import metku.optimization.structopt as so
    cur = {"vars": case["vars"], "c": [2, -1, 1], "sense": "MIN", "cons": [[[1, 1, 1], ">", 3.5], [[1, 2, -1], "<", 2.5]], "lock": [], "how": "bnb"}
    pr, vs = build(cur)
    for k, op in enumerate(case["ops"]):
        if op == "sense":
            cur["sense"] = "MAX" if cur["sense"] == "MIN" else "MIN"
            pr.obj.obj_type = cur["sense"]
        elif op == "tighten":
            cur["cons"][0][2] += 0.5
            pr.cons[0].b = cur["cons"][0][2]
        elif op == "lock":
            v = values(case["vars"][1])[0]
            cur["lock"] = [[1, v]]
            vs[1].lock(v)
        elif op == "unlock":
            cur["lock"] = []
            vs[1].unlock()
        elif op == "addcon":
            cur["cons"].append([[1, 0, 1], "<", 3.25])
            pr.add(so.LinearConstraint([1, 0, 1], 3.25, "<"))
        else:
            c = dict(cur, how={"lp": "ortools", "milp": "milp", "bnb": "bnb-ortools"}[op])
            if op == "lp":  # the continuous relaxation
                rv = [("c", v[1], v[2]) if v[0] in "ci" else ("c", 0, 1) if v[0] == "b" else ("c", min(v[1]), max(v[1])) for v in case["vars"]]
                c["vars"] = [["c", r[1], r[2]] for r in rv]
            want, _ = ref.optimum(refvars(c["vars"]), c["c"], c["cons"], c["sense"], c["lock"])
            before = snapshot(pr)
            try:
                sol, f, x = solve(c, pr)
            except Exception as e:
                if licensed(e):
                    ctx.undefined += 1
                    return
                raise
            check_point(c, ctx, pr, vs, lin(c), f, x, want, f"{case['ops']} step {k}", 1e-5)
            ctx.expect(snapshot(pr) == before, "problem", f"{case} step {k}: the problem itself was changed: {before} -> {snapshot(pr)}")
        ctx.step()


def families(tier):
    return [
        Family("lp", lambda: lp_cases(tier), run_linear, "variable ranges x objectives x senses x up to two constraints of every sense x locked variables x both back ends", "complete product; oracle: all basic points in rational arithmetic"),
        Family("milp", lambda: mi_cases(tier, "milp"), run_linear, "integer, binary, discrete and continuous variables x objectives x constraint lists x locked variables", "complete product; oracle: complete enumeration"),
        Family("bnb-linear", lambda: mi_cases(tier, "bnb-ortools"), run_linear, "the same problems by branch and bound with a linear relaxation", "complete product; oracle: complete enumeration"),
        Family("bnb-quadratic", lambda: quad_cases(tier), run_quad, "convex quadratic objectives x constraints x branching priorities by branch and bound with a nonlinear relaxation", "complete product; oracle: complete enumeration"),
        Family("deep", lambda: deep_cases(tier), run_deep, "knapsack-like problems with wider ranges x objectives x constraint sets x branching priorities", "complete product; oracle: complete enumeration"),
        Family("bnb-nonlinear", lambda: nl_cases(tier), run_nl, "convex objectives x subsets of convex constraints x linear constraints on discrete designs", "complete product; oracle: complete enumeration"),
        Family("neighbours", lambda: nb_cases(tier), run_nb, "variable kinds x neighbourhood sizes x positions", "complete product"),
        Family("again", lambda: hist_cases(tier), run_hist, "all histories of solving, locking, changing the sense, tightening and adding constraints", "all words to the depth bound"),
    ]
