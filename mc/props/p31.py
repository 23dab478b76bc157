"""P31: continuous optimisers return the exact optimum of small convex problems, whatever was solved before."""
import itertools
import numpy as np
from ..core import Family, canon, histories
from ..ref import convex as ref

LB, UB = [0.5, -1.0], [4.0, 3.0]
ROWS = [([1, 1], "<", 3.0), ([1, -1], ">", 0.5), ([1, 2], "=", 4.0), ([2, 1], ">", 5.0), ([-1, 1], "<", -2.0),
        ([1, 0], "<", 0.2), ([1, 3], ">", 1.5)]
# relative accuracy that each algorithm reaches on well scaled problems (its stopping tolerances)
TOL = {"slsqp": 2e-4, "problem": 2e-4, "trust": 5e-3, "cobyla": 5e-4, "mma": 2e-3}


def build(D, p, rows, form, ot):
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.objective import ObjectiveFunction
    from metku.optimization.constraints import NonLinearConstraint, LinearConstraint
    from metku.optimization.variables import Variable
    vs = [Variable("a", LB[0], UB[0], value=1.0), Variable("b", LB[1], UB[1], value=1.0)]
    pr = OptimizationProblem("p", variables=vs)
    s = 1 if ot == "MIN" else -1
    pr.add(ObjectiveFunction("f", lambda x: s * (D[0] * (x[0] - p[0])**2 + D[1] * (x[1] - p[1])**2 + 7), ot))
    for k, (a, t, b) in enumerate(rows):
        if form == "lin" or (form == "mix" and k % 2 == 0):
            pr.add(LinearConstraint(list(a), b, t))
        else:
            pr.add(NonLinearConstraint(lambda x, a=a, b=b: a[0] * x[0] + a[1] * x[1] - b, t))
    return pr, vs


def exact(D, p, rows, lock):
    """-> None or (f, full x) with the objective constant 7"""
    free = [i for i in range(2) if lock.get(i) is None]
    const = sum(D[i] * (v - p[i])**2 for i, v in lock.items() if v is not None)
    rr = [([a[i] for i in free], t, b - sum(a[i] * v for i, v in lock.items() if v is not None)) for a, t, b in rows]
    rows1 = []
    for a, t, b in rr:
        if all(v == 0 for v in a):
            if (t == "<" and 0 > b) or (t == ">" and 0 < b) or (t == "=" and b != 0):
                return None
            continue
        rows1.append((a, t, b))
    best = ref.quadratic([D[i] for i in free], [p[i] for i in free], rows1, [LB[i] for i in free], [UB[i] for i in free])
    if best is None:
        return None
    x = [lock.get(i) for i in range(2)]
    for i, v in zip(free, best[1]):
        x[i] = float(v)
    return best[0] + const + 7, x


def hair(D, p, rows, lock):
    """feasibility decided by a hair: tightening or relaxing every row by 1e-3 changes the verdict"""
    def moved(e):
        return [(a, t, b - e if t == "<" else b + e if t == ">" else b) for a, t, b in rows]
    return (exact(D, p, moved(1e-3), lock) is None) != (exact(D, p, moved(-1e-3), lock) is None)


def solve(how, pr, x0):
    """-> (f, x, feasible flag, solver object)"""
    from metku.optimization.solvers import SLSQP, TrustRegionConstr, MMA, COBYLA
    x0 = None if x0 is None else np.array(x0, float)
    if how == "problem":
        r = pr.solve("slsqp", x0=x0)
        return float(r.fun), [float(v) for v in r.x], bool(r.success), None
    if how == "cobyla":
        s = COBYLA()
        f, x = s.solve(pr, maxiter=1000) if x0 is None else s.solve(pr, maxiter=1000, x0=x0)
    else:
        s = {"slsqp": SLSQP, "trust": TrustRegionConstr, "mma": MMA}[how]()
        f, x = s.solve(pr, x0=x0)
    return float(f), [float(v) for v in np.atleast_1d(x)], bool(s.feasible), s


def judge(ctx, tag, how, res, want, pr, lock, rows, data):
    f, x, feas, s = res
    free = [i for i in range(2) if lock.get(i) is None]
    tol = TOL[how]
    ctx.state((how, canon(want, 4), canon(x, 3)))
    if want is None:
        if how != "mma":
            ctx.expect(not feas, "infeasible-accepted", f"{tag}: {how} reports success on an infeasible problem at {x}")
        return
    ctx.expect(feas, "not-solved", f"{tag}: {how} reports failure at {x}, optimum {want}")
    full = [lock.get(i) for i in range(2)]
    for i, v in zip(free, x):
        full[i] = v
    ctx.expect(len(x) == len(free), "free-variables", f"{tag}: {how} returned {x}")
    D, p = data
    fx = D[0] * (full[0] - p[0])**2 + D[1] * (full[1] - p[1])**2 + 7
    ctx.eq(f, fx, "value", f"{tag}: {how}: reported value of {x}", 1e-7, 1e-7)
    scale = max(1.0, abs(want[0]))
    ctx.expect(abs(fx - want[0]) <= tol * scale, "optimum", f"{tag}: {how} {fx:.8g} at {full}, optimum {want[0]:.8g} at {want[1]}")
    for i in free:
        ctx.expect(LB[i] - 1e-4 <= full[i] <= UB[i] + 1e-4, "bounds", f"{tag}: {how}: {full} outside the bounds")
    for a, t, b in rows:
        g = a[0] * full[0] + a[1] * full[1] - b
        ctx.expect((g < 1e-3) if t == "<" else (g > -1e-3) if t == ">" else abs(g) < 1e-3, "constraint", f"{tag}: {how}: {full} violates {a}{t}{b} by {g:.3g}")
    if s is not None:
        ctx.expect(np.allclose(np.atleast_1d(s.best_x), x) and abs(float(s.best_f) - f) < 1e-12, "report", f"{tag}: {how}: best_x {s.best_x} / best_f {s.best_f} are not what was returned ({x}, {f})")


def run_quad(case, ctx):
    D, p, rows = case["D"], case["p"], [ROWS[i] for i in case["rows"]]
    lock = {case["lock"][0]: case["lock"][1]} if case["lock"] else {}
    if hair(D, p, rows, lock):
        ctx.undefined += 1
        return
    want = exact(D, p, rows, lock)
    for how, x0 in case["runs"]:
        pr, vs = build(D, p, rows, case["form"], case["ot"])
        for i, v in lock.items():
            vs[i].lock(v)
        xs = None if x0 is None else [v for i, v in enumerate(x0) if i not in lock]
        res = solve(how, pr, xs)
        judge(ctx, str(case), how, res, want, pr, lock, rows, (D, p))


def quad_cases(deep):
    X0 = [[0.5, -1.0], [2.0, 1.0], [4.0, 3.0], None]
    for D in ([1, 1], [1, 4], [3, 1]) if deep else ([1, 1], [1, 4]):
        for p in ([2, 1], [5, 4], [-1, -3], [3, -1], [0.7, 2.4]) if deep else ([2, 1], [5, 4], [-1, -3]):
            for k in (0, 1, 2, 3) if deep else (0, 1, 2):
                for rows in itertools.combinations(range(len(ROWS)), k):
                    for form in (("nl",) if k == 3 and p not in ([2, 1], [-1, -3]) else ("lin", "nl", "mix") if k > 1 else ("lin", "nl")):
                        for lock in (None, (1, 0.75), (0, 2.0)):
                            for ot in ("MIN", "MAX") if k < 3 else ("MIN",):
                                runs = [("slsqp", x) for x in X0] + [("problem", x) for x in X0[:3]] + ([("cobyla", X0[1])] if k < 3 else [])
                                if ot == "MIN" and form != "mix" and k < 2 and D != [3, 1]:
                                    runs += [("trust", X0[1])]
                                yield {"D": D, "p": p, "rows": list(rows), "form": form, "lock": lock, "ot": ot, "runs": runs}


def size_build(case):
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.objective import ObjectiveFunction, LinearObjective
    from metku.optimization.constraints import NonLinearConstraint, LinearConstraint
    from metku.optimization.variables import Variable
    c, a, b = case["c"], case["a"], case["b"]
    vs = [Variable(f"x{i}", lo, hi, value=hi) for i, (lo, hi) in enumerate(zip(case["lb"], case["ub"]))]
    pr = OptimizationProblem("size", variables=vs)
    if case["obj"] == "lin":
        pr.add(LinearObjective("w", list(c)))
    else:
        pr.add(ObjectiveFunction("w", lambda x: sum(p * q for p, q in zip(c, x))))
    k = 1.0 / b
    if case["con"] == "<":
        pr.add(NonLinearConstraint(lambda x: k * sum(p / q for p, q in zip(a, x)) - 1, "<"))
    else:
        pr.add(NonLinearConstraint(lambda x: 1 - k * sum(p / q for p, q in zip(a, x)), ">"))
    # a row that no design within the bounds violates
    pr.add(LinearConstraint([1.0] * len(c), sum(case["ub"]) + 1, "<"))
    return pr, vs


def run_size(case, ctx):
    n = len(case["c"])
    lock = {case["lock"][0]: case["lock"][1]} if case["lock"] else {}
    free = [i for i in range(n) if i not in lock]
    pick = lambda v: [v[i] for i in free]
    b = case["b"] - sum(case["a"][i] / v for i, v in lock.items())
    const = sum(case["c"][i] * v for i, v in lock.items())
    want = ref.sizing(pick(case["c"]), pick(case["a"]), b, pick(case["lb"]), pick(case["ub"])) if b > 0 else None
    if want is None:
        ctx.undefined += 1
        return
    for how, f0 in case["runs"]:
        pr, vs = size_build(case)
        for i, v in lock.items():
            vs[i].lock(v)
        x0 = None if f0 is None else [case["lb"][i] + f0 * (case["ub"][i] - case["lb"][i]) for i in free]
        f, x, feas, s = solve(how, pr, x0)
        tag = f"{case} {how} from {x0}"
        ctx.state((how, canon(want[0], 5), canon(x, 3)))
        ctx.expect(feas, "size-not-solved", f"{tag}: failure at {x}")
        ctx.expect(len(x) == len(free) and abs(f - want[0] - const) <= TOL[how] * max(1, abs(want[0])), "size-optimum", f"{tag}: {f:.8g} at {x}, optimum {want[0] + const:.8g} at {want[1]}")
        ctx.eq(f, const + sum(p * q for p, q in zip(pick(case["c"]), x)), "size-value", f"{tag}: value of the reported design", 1e-7, 1e-9)
        ctx.expect(sum(p / q for p, q in zip(pick(case["a"]), x)) <= b * (1 + 1e-3), "size-feasible", f"{tag}: reported design {x} is infeasible")
        ctx.expect(all(case["lb"][i] - 1e-6 <= v <= case["ub"][i] + 1e-6 for i, v in zip(free, x)), "size-bounds", f"{tag}: {x} outside the bounds")


def size_cases(deep):
    for n in (2, 3):
        for c in itertools.product((1.0, 2.0), repeat=n):
            for a in itertools.product((1.0, 3.0), repeat=n):
                for b in (0.8, 1.5, 4.0):
                    for lb, ub in (([0.5] * n, [8.0] * n), ([0.5, 3.0, 0.5][:n], [2.0, 8.0, 8.0][:n])):
                        for lock in (None, (1, 4.0)) if n == 2 or deep else (None, (1, 4.0), (2, 3.0)):
                            for obj, con in (("lin", "<"), ("fun", ">")):
                                runs = [("slsqp", 0.5), ("slsqp", None)]
                                if con == "<":
                                    runs += [("mma", 0.5), ("mma", 1.0)] + [("mma", 0.25)] * deep
                                if deep:
                                    runs += [("slsqp", 0.0), ("problem", 0.5)]
                                yield {"c": list(c), "a": list(a), "b": b, "lb": lb, "ub": ub, "lock": lock, "obj": obj, "con": con, "runs": runs}


def run_hist(case, ctx):
    """one problem object, a word over solvers and locks: every answer is the optimum of the current problem"""
    D, p, rows = [1, 4], case["p"], [ROWS[i] for i in case["rows"]]
    pr, vs = build(D, p, rows, case["form"], "MIN")
    lock = {}
    for op in case["ops"]:
        if op == "lock":
            lock[1] = 0.75
            vs[1].unlock()
            vs[1].lock(0.75)
        elif op == "lock2":
            lock[1] = -0.5
            vs[1].unlock()
            vs[1].lock(-0.5)
        elif op == "unlock":
            lock.pop(1, None)
            vs[1].unlock()
        else:
            if hair(D, p, rows, lock):
                ctx.undefined += 1
                return
            want = exact(D, p, rows, lock)
            if want is None and op == "mma":
                continue
            x0 = [v for i, v in enumerate([2.0, 1.0]) if i not in lock]
            res = solve(op, pr, x0)
            if op == "mma":
                # no convergence in general (see size family): bookkeeping only
                ctx.expect(len(res[1]) == len(x0), "mma-size", f"{case}: {res[1]}")
                continue
            judge(ctx, str(case), op, res, want, pr, dict(lock), rows, (D, p))
    ctx.expect(all(c.problem is pr for c in pr.cons) and pr.obj.problem is pr, "stolen", f"{case}: constraints or objective belong to another problem afterwards")


def hist_cases(deep):
    ops = ["lock", "lock2", "unlock", "slsqp", "cobyla", "problem", "mma"] + (["trust"] if deep else [])
    for rows in ([0, 1], [4, 6], [1, 2]) if deep else ([0, 1], [1, 2]):
        for form in ("lin", "nl"):
            for w in histories(ops, 3, mindepth=1):
                if w[-1] in ("lock", "lock2", "unlock"):
                    w = list(w) + ["slsqp"]
                yield {"p": [5, 4], "rows": rows, "form": form, "ops": list(w)}


def run_steep(case, ctx):
    """exact line searches: x(k+1) = x(k) - (g.g / g.Hg) g on a quadratic"""
    from metku.optimization.solvers.steepest import SteepestDescent
    H, q = np.array(case["H"], float), np.array(case["q"], float)
    fun = lambda x: float(0.5 * x @ H @ x - q @ x + case["c"])
    grad = lambda x: H @ x - q
    s = SteepestDescent(fun, grad)
    x0 = np.array(case["x0"], float)
    s.solve(x0, maxiter=case["n"])
    ctx.expect(len(s.xvals) == len(s.fvals) <= case["n"] + 1, "steep-log", f"{case}: {len(s.xvals)} iterates, {len(s.fvals)} values")
    x = x0
    sc = 1 + np.linalg.norm(x0) + np.linalg.norm(np.linalg.solve(H, q))
    for k, (xk, fk) in enumerate(zip(s.xvals, s.fvals)):
        ctx.eq(fk, fun(np.array(xk)), "steep-value", f"{case}: value at iterate {k}", 1e-12, 1e-12)
        ctx.expect(np.linalg.norm(np.array(xk) - x) <= 1e-5 * sc, "steep-step", f"{case}: iterate {k} {xk}, exact line search {x}")
        g = grad(np.array(xk, float))
        if g @ g < 1e-16:
            break
        x = np.array(xk, float) - (g @ g) / (g @ H @ g) * g
    # two small relative changes in succession (1e-4) or a vanishing gradient end the iteration
    if len(s.xvals) < case["n"] + 1:
        gl = np.linalg.norm(grad(np.array(s.xvals[-1], float)))
        small = sum(abs(u - v) <= 1e-8 + 1e-4 * abs(v) for u, v in zip(s.fvals[1:], s.fvals))
        ctx.expect(gl < 1e-7 or small >= 2, "steep-stop", f"{case}: stopped at {s.xvals[-1]} with gradient {gl:.3g}")
    ctx.state(canon([list(map(float, v)) for v in s.xvals], 4))


def steep_cases(deep):
    for H in ([[2, 0], [0, 2]], [[2, 0], [0, 8]], [[4, 1], [1, 3]], [[1, 0.5], [0.5, 6]]):
        for q in ([0, 0], [1, 2], [-3, 4]):
            for x0 in itertools.product((-3.0, 0.5, 10.0), repeat=2):
                for c in (0.0, 5.0):
                    for n in (1, 2, 5, 60) if deep else (1, 3, 40):
                        yield {"H": H, "q": q, "x0": list(x0), "c": c, "n": n}


def families(tier):
    deep = tier == "thorough"
    return [
        Family("quadratic", lambda: quad_cases(deep), run_quad, "quadratic objective x constraint subset x linear/nonlinear form x locked variable x MIN/MAX x solver x starting point", "all subsets of at most 2-3 of 7 rows, 4 starting points, SLSQP, COBYLA, trust region and problem.solve"),
        Family("sizing", lambda: size_cases(deep), run_size, "least weight with a stress/displacement type constraint (reciprocal variables) x locked variable x solver", "2-3 variables, all weight and flexibility vectors over two values, SLSQP, MMA, trust region"),
        Family("history", lambda: hist_cases(deep), run_hist, "all words over solvers, locking and unlocking on one problem object", "depth 3 over 7-8 operations"),
        Family("steepest", lambda: steep_cases(deep), run_steep, "quadratic x starting point x iteration limit; every iterate", "4 matrices x 3 vectors x 9 points"),
    ]
