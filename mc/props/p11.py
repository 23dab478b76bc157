"""P11: best-design bookkeeping of the iterative and random search heuristics, for every resolution of random choices."""
import contextlib
import itertools
import math
import random
from types import SimpleNamespace as NS
from ..chooser import explore
from ..core import Family, canon, histories
from ..ref import milp as ref

# objective functions and constraints of two variables; margins at all lattice points are far from zero
OBJ = {"lin": lambda x: 3 * x[0] + 2 * x[1] + 20, "quad": lambda x: (x[0] - 1.4) ** 2 + 2 * (x[1] - 2.3) ** 2 + 1, "neg": lambda x: -2 * x[0] + x[1] - 5}
CONS = {"none": [], "le": [("<", lambda x: x[0] + x[1] - 4.333)], "ge": [(">", lambda x: x[0] + 2 * x[1] - 3.727)],
        "mix": [("<", lambda x: x[0] - x[1] - 1.657), (">", lambda x: x[0] * x[1] - 0.557)], "hard": [(">", lambda x: x[0] + x[1] - 5.357), ("<", lambda x: x[0] - 2.637)]}
KINDS = {"cont": [["c", 0, 4], ["c", 0.5, 3]], "index": [["x", [1, 2, 4]], ["x", [0.5, 3, 3.5, 5]]], "disc": [["d", [0.75, 2, 3.3335]], ["d", [1, 2.5]]],
         "int": [["i", 0, 3], ["i", 1, 4]], "mixed": [["d", [0.5, 2.25, 3.5]], ["c", 0, 4]], "mixed2": [["c", 0.5, 4], ["i", -1, 3]], "disc3": [["d", [0.75, 2, 3.3335]], ["d", [1, 2.5, 4.0625]]]}


def build(kind, obj, cons, sense="MIN", lock=None):
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.objective import ObjectiveFunction
    from metku.optimization.constraints import NonLinearConstraint
    from metku.optimization.variables import Variable, IntegerVariable, IndexVariable, DiscreteVariable
    vs, log = [], []
    for k, v in enumerate(KINDS[kind]):
        if v[0] == "c":
            vs.append(Variable(f"x{k}", v[1], v[2], value=v[2]))
        elif v[0] == "i":
            vs.append(IntegerVariable(f"x{k}", v[1], v[2], value=v[2]))
        elif v[0] == "d":
            vs.append(DiscreteVariable(f"x{k}", values=list(v[1]), value=v[1][-1]))
        else:
            vs.append(IndexVariable(f"x{k}", values=list(v[1]), value=len(v[1]) - 1))
    pr = OptimizationProblem("p", variables=vs)

    def f(x):
        log.append([float(v) for v in x])
        return OBJ[obj](x)
    pr.add(ObjectiveFunction("f", f, sense))
    for j, (t, g) in enumerate(CONS[cons]):
        pr.add(NonLinearConstraint(g, t, name=f"g{j}"))
    if lock is not None:
        vs[lock[0]].lock(lock[1])
    return pr, vs, log


def bounds(kind):
    out = []
    for v in KINDS[kind]:
        out.append((v[1], v[2]) if v[0] in "ci" else (0, len(v[1]) - 1) if v[0] == "x" else (min(v[1]), max(v[1])))
    return out


def allowed(kind, x, tol=1e-9):
    for v, xi in zip(KINDS[kind], x):
        if v[0] in "ci" and not v[1] - tol <= xi <= v[2] + tol:
            return False
        if v[0] == "i" and abs(xi - round(xi)) > tol:
            return False
        if v[0] == "d" and min(abs(xi - w) for w in v[1]) > tol:
            return False
        if v[0] == "x" and (abs(xi - round(xi)) > tol or not 0 <= round(xi) < len(v[1])):
            return False
    return True


def feasible(cons, x, tol=1e-4):
    """None: too close to call"""
    res = True
    for t, g in CONS[cons]:
        v = g(x) if t == "<" else -g(x)
        if abs(v) < 2 * tol:
            return None
        res = res and v <= 0
    return res


def judge(ctx, tag, kind, obj, cons, sense, fbest, xbest, seen, lock=None, must_be_best=True):
    """the reported design is one of the evaluated ones, and the best feasible of them"""
    sign = -1 if sense == "MAX" else 1
    if not ctx.expect(xbest is not None, "no-design", f"{tag}: no design reported"):
        return
    x = [float(v) for v in xbest]
    if lock is not None:
        x.insert(lock[0], lock[1])
    ctx.expect(len(x) == 2, "length", f"{tag}: reported {x}")
    for e in seen:
        if not allowed(kind, e):
            ctx.fail("left-domain", f"{tag}: evaluated {e}, which is outside the bounds or the table")
            break
    ctx.expect(allowed(kind, x), "reported-domain", f"{tag}: reported {x}, which is outside the bounds or the table")
    fe = [(e, feasible(cons, e)) for e in seen]
    if any(f is None for _, f in fe):
        ctx.undefined += 1
        return
    ok = [e for e, f in fe if f]
    ctx.expect(any(max(abs(u - v) for u, v in zip(e, x)) < 1e-9 for e in seen), "not-evaluated", f"{tag}: reported {x} was never evaluated")
    if ok:
        if ctx.expect(bool(feasible(cons, x)), "infeasible", f"{tag}: reported {x} is infeasible although {ok[0]} was evaluated"):
            ctx.eq(float(fbest), sign * OBJ[obj](x), "objective", f"{tag}: objective of the reported design {x}", 1e-9, 1e-9)
            if must_be_best:
                best = min(sign * OBJ[obj](e) for e in ok)
                ctx.eq(float(fbest), best, "best", f"{tag}: best of the evaluated feasible designs", 1e-9, 1e-9)
    return x


# ---------------------------------------------------------------- the common iteration engine
MOVES = {"stay": [0, 0], "r": [0.9, 0], "l": [-0.7, 0], "u": [0, 0.8], "far": [-9, 9], "dr": [1.1, -0.6]}
STARTS = [[3.1, 2.9], [0.3, 0.6], [2.2, 1.3]]


def engine_cases(tier):
    for obj in OBJ:
        for cons in CONS:
            for sense in ("MIN", "MAX"):
                for s in range(len(STARTS)):
                    for w in histories(list(MOVES), 3 if tier == "quick" else 4, None, 1):
                        if tier == "quick" and len(w) == 3 and sense == "MAX" and s:
                            continue
                        yield {"obj": obj, "cons": cons, "sense": sense, "s": s, "w": w}


def run_engine(case, ctx):
    import numpy as np
    from metku.optimization.solvers.optsolver import OptSolver
    moves = iter(case["w"])

    class Stub(OptSolver):
        step_length = 1.0
        step_factor = 0.0

        def take_action(self):
            return np.array(MOVES[next(moves)], dtype=float)
    pr, vs, log = build("cont", case["obj"], case["cons"], case["sense"])
    sol = Stub()
    x0 = np.array(STARTS[case["s"]])
    given = x0.copy()
    f, x = sol.solve(pr, x0=x0, maxiter=len(case["w"]))
    ctx.expect(list(given) == list(x0), "start-changed", f"{case}: starting point changed to {list(x0)}")
    # reference trajectory
    sign = -1 if case["sense"] == "MAX" else 1
    F = lambda p: sign * OBJ[case["obj"]](p)
    tr = [list(map(float, given))]
    b = bounds("cont")
    for k, m in enumerate(case["w"]):
        p = [min(max(u + d, lo), hi) for u, d, (lo, hi) in zip(tr[-1], MOVES[m], b)]
        tr.append(p)
        fe = feasible(case["cons"], p)
        if fe is None:
            ctx.undefined += 1
            return
        if fe:
            dx = math.dist(p, tr[-2])
            if dx < 1e-8 * math.hypot(*tr[-2]) or abs(F(p) - F(tr[-2])) <= 1e-8 + 1e-4 * abs(F(tr[-2])):
                break
    ctx.eq([v for p in sol.xvals for v in p], [v for p in tr for v in p], "trajectory", f"{case}: stored iterates", 1e-12, 1e-12)
    ctx.eq(list(map(float, sol.fvals)), [F(p) for p in tr], "history", f"{case}: stored objective values", 1e-12, 1e-12)
    ctx.eq([v for p in pr.states for v in p], [v for p in tr[1:] for v in p], "states", f"{case}: states stored in the problem", 1e-12, 1e-12)
    ctx.eq(list(map(float, pr.fvals)), [F(p) for p in tr[1:]], "problem-history", f"{case}: values stored in the problem", 1e-12, 1e-12)
    ctx.eq([v for g in pr.gvals for v in g], [g(p) for p in tr[1:] for _, g in CONS[case["cons"]]], "constraint-history", f"{case}: constraint values stored in the problem", 1e-9, 1e-9)
    ctx.eq(pr.num_iters, len(tr) - 1, "iterations", f"{case}: number of iterations", 0, 0)
    judge(ctx, str(case), "cont", case["obj"], case["cons"], case["sense"], f, x, tr)
    ctx.expect(bool(sol.feasible) == any(feasible(case["cons"], p) for p in tr), "flag", f"{case}: feasible flag {sol.feasible}")
    ctx.state((canon(tr), case["obj"], case["cons"]))


# ---------------------------------------------------------------- random sources
class Rng:
    R = [0.37, 0.0, 0.999, 0.72]

    def __init__(self, ch, tick):
        self.ch, self.tick = ch, tick

    def random(self, n=None):
        import numpy as np
        if n is None:
            return self.ch.pick(self.R)
        return np.array([self.ch.pick(self.R) for _ in range(n)])

    def integers(self, lo, hi=None):
        lo, hi = int(lo), int(hi)
        return self.tick([lo + k for k in range(hi - lo)])

    def uniform(self, lo=0.0, hi=1.0, size=None):
        import numpy as np
        if size is None:
            return lo + (hi - lo) * self.ch.pick(self.R)
        return lo + (hi - lo) * np.array([self.ch.pick(self.R) for _ in range(int(np.prod(size)))]).reshape(size)

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        return np.random.choice(a, size, replace, p)

    def shuffle(self, x):
        return None

    def permutation(self, x):
        import numpy as np
        return np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)


@contextlib.contextmanager
def controlled(ch, bias=0):
    """every random source used by the solvers answers from the chooser"""
    import numpy as np
    cnt = [0]

    def tick(options):
        """default answers run through the options in turn, so that search loops make progress"""
        if hasattr(ch, "turn"):
            return ch.turn(options)
        cnt[0] += 1
        n = len(options)
        return options[(cnt[0] + ch.choose(n)) % n]
    unit = [0.999, 0.0, 0.4] if bias == 0 else [0.0, 0.999, 0.4]

    def randint(lo, hi=None, size=None):
        if hi is None:
            lo, hi = 0, lo
        lo, hi = int(lo), int(hi)
        if size is None:
            return tick(list(range(lo, hi)))
        n = int(size)
        k = tick(list(range((hi - lo) ** n)))
        out = []
        for _ in range(n):
            out.append(lo + k % (hi - lo))
            k //= (hi - lo)
        return np.array(out)

    def choice(a, size=None, replace=True, p=None):
        a = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is None:
            if p is not None:
                a = [v for v, q in zip(a, p) if q > 0]
            return ch.pick(a)
        combos = list(itertools.combinations(a, int(size)))
        return np.array(ch.pick(combos), dtype=int)
    saved = [(np.random, n, getattr(np.random, n)) for n in ("default_rng", "randint", "choice", "uniform", "rand", "shuffle", "random")] + [(random, n, getattr(random, n)) for n in ("random", "randint", "sample", "choice", "shuffle", "uniform", "randrange")]
    np.random.default_rng = lambda *a: Rng(ch, tick)
    np.random.randint, np.random.choice = randint, choice
    np.random.uniform = lambda lo=0.0, hi=1.0, size=None: lo + (hi - lo) * ch.pick([0.55, 0.0, 1.0, 0.2])
    np.random.rand = lambda *a: ch.pick(unit)
    np.random.random = lambda *a: ch.pick(unit)
    np.random.shuffle = lambda x: None
    random.random = lambda: ch.pick(unit)
    random.randint = lambda a, b: tick(list(range(int(a), int(b) + 1)))
    random.randrange = lambda a, b=None: tick(list(range(0, int(a)) if b is None else range(int(a), int(b))))
    random.choice = lambda s: tick(list(s))
    random.sample = lambda pop, k: list(ch.pick(list(itertools.combinations(list(pop), k))))
    random.shuffle = lambda x: None
    random.uniform = lambda a, b: a + (b - a) * ch.pick([0.55, 0.0, 1.0])
    try:
        yield
    finally:
        for m, n, v in saved:
            setattr(m, n, v)


def start_cases(tier):
    for kind in KINDS:
        for obj in ("lin", "quad"):
            for cons in CONS:
                yield {"kind": kind, "obj": obj, "cons": cons, "k": 2, "n": 24 if tier == "quick" else 60}


def run_start(case, ctx):
    """no starting point given: a random feasible one"""
    import numpy as np
    from metku.optimization.solvers.optsolver import OptSolver
    if not any(feasible(case["cons"], p) for p in itertools.product(*[(lo + (hi - lo) * t for t in Rng.R) if k[0] == "c" else k[1] if k[0] == "d" else range(int(lo), int(hi) + 1) for (lo, hi), k in zip(bounds(case["kind"]), KINDS[case["kind"]])])):
        ctx.undefined += 1
        return

    class Stub(OptSolver):
        step_length = 1.0
        step_factor = 0.0

        def take_action(self):
            return np.zeros(2)
    hist = []

    class Deep(Exception):
        pass

    def run(ch):
        pr, vs, log = build(case["kind"], case["obj"], case["cons"])
        sol = Stub()

        def turn(options):  # default answers go through the options in turn: every point is reached
            if len(ch.arity) > 600:
                raise Deep
            i = len(ch.arity)
            n = len(options)
            return options[(ch.choose(n) + (i // 2 if i % 2 else i // 2 // 5)) % n]
        ch.pick = ch.turn = turn
        try:
            with controlled(ch):
                f, x = sol.solve(pr, maxiter=1)
        except Deep:
            ctx.undefined += 1
            return
        ctx.step()
        x0 = [float(v) for v in sol.xvals[0]]
        hist.append(x0)
        tag = f"{case} choices {ch.dev}"
        ctx.expect(allowed(case["kind"], x0), "start-domain", f"{tag}: starting point {x0} is outside the bounds or the table")
        ctx.expect(feasible(case["cons"], x0) is not False, "start-infeasible", f"{tag}: starting point {x0} is not feasible")
        judge(ctx, tag, case["kind"], case["obj"], case["cons"], "MIN", f, x, [[float(v) for v in p] for p in sol.xvals])
        ctx.state((canon(x0), case["kind"], case["cons"]))
    ctx.traces += explore(run, case["k"], maxpos=case["n"])


# ---------------------------------------------------------------- particle swarm
def pso_cases(tier):
    for kind in KINDS:
        for obj in OBJ:
            for cons in CONS:
                for sense in ("MIN", "MAX") if obj == "quad" else ("MIN",):
                    for pop, it in ((2, 2), (3, 1)) if tier == "quick" else ((2, 2), (3, 2), (2, 3)):
                        yield {"kind": kind, "obj": obj, "cons": cons, "sense": sense, "pop": pop, "it": it, "k": 2}


def run_pso(case, ctx):
    from metku.optimization.solvers.pso import PSO

    def run(ch):
        pr, vs, log = build(case["kind"], case["obj"], case["cons"], case["sense"])
        sol = PSO(pop_size=case["pop"])
        with controlled(ch):
            f, x = sol.solve(pr, maxiter=case["it"])
        ctx.step()
        judge(ctx, f"{case} choices {ch.dev}", case["kind"], case["obj"], case["cons"], case["sense"], f, x, list(log))
        ctx.state((canon(log), case["cons"]))
    ctx.traces += explore(run, case["k"])


# ---------------------------------------------------------------- genetic algorithm
def ga_cases(tier):
    for kind in ("index", "int", "disc", "cont", "mixed", "mixed2"):
        for obj in ("lin", "quad"):
            for cons in ("le", "ge", "mix", "hard"):
                for bias in (0, 1):
                    for x0 in (None, 0, 1):
                        for before in (0, 1):
                            for k, it, sh in ((1, 2, 1),) if tier == "quick" else ((1, 3, 1), (2, 1, 4)):
                                for s in range(sh):
                                    yield {"kind": kind, "obj": obj, "cons": cons, "bias": bias, "x0": x0, "before": before, "k": k, "it": it, "shard": s, "shards": sh}


def run_ga(case, ctx):
    from metku.optimization.solvers.ga import GA

    def run(ch):
        with controlled(ch, case["bias"]):
            if case["before"]:
                # another solver instance was used before on a problem with one variable
                from metku.optimization.structopt import OptimizationProblem
                from metku.optimization.objective import ObjectiveFunction
                from metku.optimization.variables import IntegerVariable
                p1 = OptimizationProblem("q", variables=[IntegerVariable("z", 7, 9, value=8)])
                p1.add(ObjectiveFunction("f", lambda x: x[0]))
                from ..chooser import Chooser
                with controlled(Chooser({}), 0):
                    GA(pop_size=3).solve(p1, maxiter=0)
            pr, vs, log = build(case["kind"], case["obj"], case["cons"])
            sol = GA(pop_size=2, mutation_rate=0.3)
            b = bounds(case["kind"])
            x0 = None
            if case["x0"] is not None:
                x0 = [v[1][0 if case["x0"] == 0 else -1] if v[0] == "d" else (lo, hi)[case["x0"]] for v, (lo, hi) in zip(KINDS[case["kind"]], b)]
            gen0 = len(log)
            f, x = sol.solve(pr, x0=x0, maxiter=case["it"])
        ctx.step()
        judge(ctx, f"{case} choices {ch.dev}", case["kind"], case["obj"], case["cons"], "MIN", f, x, log[gen0:])
        ctx.state((canon(log), case["cons"]))
    ctx.traces += explore(run, case["k"], case["shard"], case["shards"])


# ---------------------------------------------------------------- discrete neighbourhood search
def vns_cases(tier):
    for kind in ("index", "int"):
        for obj in OBJ:
            for cons in CONS:
                for step in (1, 2):
                    for s in range(4):
                        for it in (1, 2, 50):
                            for sense in ("MIN", "MAX"):
                                yield {"kind": kind, "obj": obj, "cons": cons, "sense": sense, "step": step, "s": s, "it": it, "k": 1 if tier == "quick" else 2}


def run_vns(case, ctx):
    from metku.optimization.solvers.vns import DiscreteVNS
    b = bounds(case["kind"])
    x0 = [None, [b[0][0], b[1][0]], [b[0][1], b[1][0]], [b[0][0] + 1, b[1][0] + 1]][case["s"]]
    start = [float(v) for v in x0] if x0 is not None else [float(hi) for _, hi in b]
    if not feasible(case["cons"], start):
        ctx.undefined += 1  # the search starts from a feasible design
        return
    sign = -1 if case["sense"] == "MAX" else 1

    def run(ch):
        pr, vs, log = build(case["kind"], case["obj"], case["cons"], case["sense"])
        sol = DiscreteVNS(step_length=case["step"])
        with controlled(ch):
            f, x = sol.solve(pr, x0=None if x0 is None else list(x0), maxiter=case["it"])
        ctx.step()
        tag = f"{case} choices {ch.dev}"
        x = judge(ctx, tag, case["kind"], case["obj"], case["cons"], case["sense"], f, x, list(log))
        ctx.expect(sign * OBJ[case["obj"]](x) <= sign * OBJ[case["obj"]](start) + 1e-12, "worse", f"{tag}: {x} is worse than the start {start}")
        if case["it"] == 50 and x is not None:
            for d in itertools.product(range(-case["step"], case["step"] + 1), repeat=2):
                y = [min(max(u + e, lo), hi) for u, e, (lo, hi) in zip(x, d, b)]
                if feasible(case["cons"], y) and sign * OBJ[case["obj"]](y) < sign * OBJ[case["obj"]](x) - 1e-9:
                    ctx.fail("not-local", f"{tag}: stopped at {x} although the neighbour {y} is better")
                    break
            ctx.step()
        ctx.state((canon(log[-6:]), case["cons"]))
    ctx.traces += explore(run, case["k"])


# ---------------------------------------------------------------- ant colony (trusses: one member per variable, common table)
def aco_cases(tier):
    for obj in OBJ:
        for cons in CONS:
            for tab in ([1, 2, 3.5], [0.5, 2.25]):
                for pop, it in ((2, 2), (3, 1)):
                    yield {"obj": obj, "cons": cons, "tab": tab, "pop": pop, "it": it, "k": 3 if tier == "quick" else 4}


def run_aco(case, ctx):
    from metku.optimization.solvers.aco import AntColonyOptimizer
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.objective import ObjectiveFunction
    from metku.optimization.constraints import NonLinearConstraint
    from metku.optimization.variables import DiscreteVariable

    def run(ch):
        log = []

        def f(x):
            log.append([float(v) for v in x])
            return OBJ[case["obj"]](x) + 30
        pr = OptimizationProblem("p", variables=[DiscreteVariable(f"x{i}", values=list(case["tab"]), value=case["tab"][0]) for i in range(2)],
                                 structure=NS(members={0: NS(length=2.0, rho=1.0), 1: NS(length=3.0, rho=2.0)}))
        pr.add(ObjectiveFunction("f", f))
        for t, g in CONS[case["cons"]]:
            pr.add(NonLinearConstraint(g, t))
        sol = AntColonyOptimizer(pop_size=case["pop"], number_of_top_ants=2)
        with controlled(ch):
            fb, x = sol.solve(pr, maxiter=case["it"])
        ctx.step()
        tag = f"{case} choices {ch.dev}"

        def pen(x):
            s = OBJ[case["obj"]](x) + 30
            for t, g in CONS[case["cons"]]:
                s += 10000 * max(0, g(x) if t == "<" else -g(x))
            return s
        x = [float(v) for v in x]
        ctx.expect(all(min(abs(v - w) for w in case["tab"]) < 1e-12 for v in x), "ant-table", f"{tag}: {x} not from the table {case['tab']}")
        ctx.eq(float(fb), pen(x), "ant-objective", f"{tag}: value reported for {x}", 1e-9, 1e-9)
        ctx.eq(float(fb), min(pen(e) for e in log), "ant-best", f"{tag}: best of the ants", 1e-9, 1e-9)
        ctx.state((canon(log), case["cons"]))
    ctx.traces += explore(run, case["k"])


# ---------------------------------------------------------------- sequential (mixed-integer) linear programming
LROWS = {"a": ([2, 1], "<", 6.3), "b": ([1, 2], ">", 3.7), "c": ([1, -1], "<", 1.65), "e": ([1, 1], "=", 3.75)}
LC = [[3, 2], [-1, -2], [-2, 1], [1, -3]]


def slp_cases(tier):
    quick = tier == "quick"
    for how in ("slp", "mislp"):
        for kind in ("cont",) if how == "slp" else ("cont", "mixed", "disc3"):
            for nl in (0, 1):
                for c in LC:
                    for k in range(1, 4):  # the linear solver behind needs at least one row
                        for rows in itertools.combinations(sorted(LROWS), k):
                            if quick and k == 3:
                                continue
                            for s in range(3):
                                for lim, typ in (((1.0, 1.0), "range"), ((0.2, 0.35), "range"), ((0.3, 0.15), "relative")):
                                    for lock in (None, 1):
                                        if lock and (s or kind != "cont") and quick:
                                            continue
                                        case = {"how": how, "kind": kind, "nl": nl, "c": c, "rows": list(rows), "s": s, "lim": lim, "typ": typ, "lock": lock}
                                        yield case
                                        if how == "mislp" and k > 1 and (lim[0] == 0.2 or not quick):
                                            yield dict(case, pot=1)


def step_ref(A, B, types, df, box, C, bmax):
    """optimal value of the move-limited linear problem with its common infeasibility variable"""
    n = len(df)
    varz = [("c", b[0], b[1]) if not isinstance(b, list) else ("d", b) for b in box] + [("c", 0, bmax)]
    cons = []
    for r, b, t in zip(A, B, types):
        cons.append((list(r) + [-1 if t == "<" else 1 if t == ">" else 0], t, b))
    return ref.optimum(varz, list(df) + [C], cons, "MIN")[0]


def run_slp(case, ctx):
    import numpy as np
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.objective import ObjectiveFunction
    from metku.optimization.constraints import NonLinearConstraint, LinearConstraint
    from metku.optimization.variables import Variable, DiscreteVariable
    from metku.optimization.solvers.slp import SLP
    from metku.optimization.solvers.mislp import MISLP
    kind = KINDS[case["kind"]]
    curve = 0.05 * case["nl"]
    F = lambda x: sum(p * q for p, q in zip(case["c"], x)) + curve * (x[0] ** 2 + x[1] ** 2)
    dF = lambda x: [p + 2 * curve * q for p, q in zip(case["c"], x)]
    G = [(LROWS[r][0], LROWS[r][1], LROWS[r][2]) for r in case["rows"]]
    gcur = lambda x: curve * x[0] * x[1]

    def fresh():
        vs = [Variable(f"x{i}", v[1], v[2], value=v[2]) if v[0] == "c" else DiscreteVariable(f"x{i}", values=list(v[1]), value=v[1][-1]) for i, v in enumerate(kind)]
        pr = OptimizationProblem("p", variables=vs)
        pr.add(ObjectiveFunction("f", F))
        for a, t, b in G:
            if case["nl"]:
                pr.add(NonLinearConstraint(lambda x, a=a, b=b: a[0] * x[0] + a[1] * x[1] - b + gcur(x), t))
            else:
                pr.add(LinearConstraint(list(a), b, t))
        if case["lock"] is not None:
            vs[1].lock(kind[1][1][0] if kind[1][0] == "d" else 1.25)
        return pr, vs
    pr, vs = fresh()
    lockv = vs[1].value if case["lock"] is not None else None
    b = bounds(case["kind"])
    pos = [(0.2, 0.3), (0.9, 0.6), (0.5, 1.0)][case["s"]]
    full = []
    for (lo, hi), v, p in zip(b, kind, pos):
        full.append(lo + p * (hi - lo) if v[0] == "c" else v[1][min(int(p * len(v[1])), len(v[1]) - 1)])
    if lockv is not None:
        full[1] = lockv
    free = [0] if lockv is not None else [0, 1]
    kw = dict(move_limits=case["lim"], gamma=0.1, C=1e4, beta=50, move_limit_type=case["typ"])
    if case["typ"] == "relative" and any(full[i] <= 0 for i in free):
        ctx.undefined += 1
        return
    if case.get("pot"):
        kw["only_potential"] = True
    sol = (SLP if case["how"] == "slp" else MISLP)(**kw)
    f, x = sol.solve(pr, x0=[full[i] for i in free], maxiter=2)
    pts = [[float(v) for v in p] for p in sol.xvals]
    lims, C, bmax = list(case["lim"]), 1e4, 50.0
    whole = lambda p: [p[0], lockv] if lockv is not None else list(p)
    if case["nl"] == 0:
        Fbest = None
    for k in range(len(pts) - 1):
        cur, new = whole(pts[k]), whole(pts[k + 1])
        box = []
        for i in free:
            lo, hi = b[i]
            v = kind[i]
            delta = (hi - lo) if case["typ"] == "range" else cur[i]
            dl, du = lims[0] * delta, lims[1] * delta
            if v[0] == "d":
                idx = min(range(len(v[1])), key=lambda j: (v[1][j] - cur[i]) ** 2)
                if idx > 0:
                    dl = max(dl, cur[i] - v[1][idx - 1])
                if idx < len(v[1]) - 1:
                    du = max(du, v[1][idx + 1] - cur[i])
                box.append([w for w in v[1] if max(lo, cur[i] - dl) - 1e-9 <= w <= min(hi, cur[i] + du) + 1e-9])
            else:
                box.append((max(lo, cur[i] - dl), min(hi, cur[i] + du)))
        grad = [dF(cur)[i] for i in free]
        A, B, types = [], [], []
        hair = False
        for a, t, rhs in G:
            g = sum(p * q for p, q in zip(a, cur)) - rhs + gcur(cur)
            if case.get("pot") and t != "=":
                g = g if t == "<" else -g
                hair = hair or abs(g + 0.25) < 1e-9
                if g < -0.25:
                    continue  # not potentially active at this point
            types.append(t)
            ga = [a[0] + curve * cur[1], a[1] + curve * cur[0]]
            A.append([ga[i] for i in free])
            B.append(sum(ga[i] * cur[i] for i in free) - (a[0] * cur[0] + a[1] * cur[1] - rhs + gcur(cur)))
        if hair or not A:
            break
        want = step_ref([[round(v, 12) for v in r] for r in A], [round(v, 12) for v in B], types, [round(v, 12) for v in grad], [bb if isinstance(bb, list) else (round(bb[0], 12), round(bb[1], 12)) for bb in box], C, bmax)
        y = [new[i] for i in free]
        tag = f"{case} iteration {k} from {cur}"
        if want is None:
            if case["how"] == "slp" or True:
                ctx.eq(new, cur, "stuck", f"{tag}: the subproblem has no solution, the design must stay", 1e-9, 1e-9)
            break
        for yi, bb in zip(y, box):
            if isinstance(bb, list):
                ctx.expect(min(abs(yi - w) for w in bb) < 1e-9, "step-table", f"{tag}: moved to {y}, allowed {box}")
            else:
                ctx.expect(bb[0] - 1e-7 <= yi <= bb[1] + 1e-7, "step-limits", f"{tag}: moved to {y}, move limits {box}")
        viol = 0.0
        for r, rhs, t in zip(A, B, types):
            v = sum(p * q for p, q in zip(r, y)) - rhs
            if t == "=":
                ctx.expect(abs(v) < 1e-4, "step-equality", f"{tag}: {y} breaks an equality by {v}")
            else:
                viol = max(viol, v if t == "<" else -v)
        viol = viol if viol > 1e-7 else 0.0
        got = sum(p * q for p, q in zip(grad, y)) + C * viol
        # differences give the gradients: relative tolerance of the finite difference step
        ctx.eq(got, float(want), "step-optimum", f"{tag}: value of the linearised problem at {y}", 1e-4, 2e-3 if viol == 0 else 0.05)
        if case["how"] == "slp":
            C *= 1.1
            if viol < 1:
                bmax = viol
            else:
                bmax = bmax
            if viol < 1:
                bmax = viol + 1e-9
        else:
            bmax *= 0.9
        lims = [0.9 * v for v in lims]
        if k == 0 and viol and viol < 1 and case["how"] == "slp":
            break  # the limit of the infeasibility variable is now the last infeasibility: degenerate
    # bookkeeping
    feas = [p for p in pts if all((sum(u * v for u, v in zip(a, whole(p))) - rhs + gcur(whole(p))) * (1 if t == "<" else -1) <= 1e-4 if t != "=" else abs(sum(u * v for u, v in zip(a, whole(p))) - rhs + gcur(whole(p))) <= 1e-4 for a, t, rhs in G)]
    if feas:
        ctx.eq(float(f), min(F(whole(p)) for p in feas), "best", f"{case}: best feasible iterate", 1e-6, 1e-6)
        ctx.eq(float(f), F(whole([float(v) for v in x])), "objective", f"{case}: objective of the reported design", 1e-9, 1e-9)
    if case.get("pot"):
        pass
    elif case["nl"] == 0 and case["lim"] == (1.0, 1.0) or case["nl"] == 0 and list(case["lim"]) == [1.0, 1.0]:
        # unrestricted moves: the linear problem itself is solved
        rv = [("c", lo, hi) if v[0] == "c" else ("d", v[1]) for (lo, hi), v in zip(b, kind)]
        opt, _ = ref.optimum(rv, case["c"], [(list(a), t, rhs) for a, t, rhs in G], "MIN", [] if lockv is None else [(1, lockv)])
        if opt is not None and case["typ"] == "range":
            ctx.eq(float(f), float(opt), "optimum", f"{case}: optimum of the linear problem", 1e-6, 1e-5)
    ctx.state((canon(pts), case["how"]))


def families(tier):
    return [
        Family("engine", lambda: engine_cases(tier), run_engine, "objectives x constraint sets x starting points x all move sequences through the common iteration loop", "all words over the moves to the depth bound"),
        Family("start", lambda: start_cases(tier), run_start, "variable kinds x constraint sets without a starting point, random numbers from the chooser", "all choice sequences with at most 2 deviations among the first n draws from a rotating default"),
        Family("swarm", lambda: pso_cases(tier), run_pso, "variable kinds x objectives x constraints x swarm sizes", "all choice sequences with at most k=2 deviations"),
        Family("genetic", lambda: ga_cases(tier), run_ga, "variable kinds x objectives x constraints x starting points x earlier use of the solver", "all choice sequences with at most k deviations from two defaults"),
        Family("neighbourhood", lambda: vns_cases(tier), run_vns, "index and integer problems x step lengths x starting points x iteration limits", "all choice sequences with at most k deviations from round robin"),
        Family("ants", lambda: aco_cases(tier), run_aco, "objectives x constraints x tables x colony sizes", "all choice sequences with at most k deviations"),
        Family("sequential", lambda: slp_cases(tier), run_slp, "linear and curved problems x constraint subsets x starting points x move limits x locked variables", "complete product; each step compared with the exact optimum of the move-limited subproblem"),
    ]
