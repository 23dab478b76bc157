"""P07: optimisation variables and the attributes they control, in lockstep with a dictionary model."""
import itertools
import math
from types import SimpleNamespace as NS
from ..core import Family, histories, product_cases, canon

SECS = ["profile a", "profile b", "profile c"]


class Var:
    """model of one variable: bounds, value, locked, and what it has written"""

    def __init__(self, kind, k):
        self.kind, self.k = kind, k
        self.locked = False
        self.value = 1 if kind != "index" and kind != "indexlist" else 0
        self.lb, self.ub = {"cont": (0.0, 10.0), "list": (1.0, 9.0), "scaled": (0.5, 4.5), "scaledlist": (0.5, 4.5), "fun": (0.0, 10.0), "disc": (1.0, 7.0),
                            "int": (0, 8), "index": (0, 2), "indexlist": (0, 2), "binsec": (0, 1), "binmem": (0, 1), "binlist": (0, 1), "cs": (0.0, 10.0), "csfun": (0.0, 10.0), "csscaled": (0.5, 4.5), "funscaled": (0.5, 4.5), "csfunscaled": (0.5, 4.5)}[kind]
        self.attrs = {}

    def pick(self, j):
        """two values inside the bounds and one outside"""
        if self.kind.startswith("bin"):
            return [0, 1, 2][j]
        if self.kind.startswith("index"):
            return [1, 2, 5][j]
        if self.kind == "disc":
            return [2.5, 7.0, 99.0][j]
        if self.kind == "int":
            return [3, 8, -4][j]
        return [2.25, 4.0, 1e3][j]

    def clamp(self, x):
        return max(self.lb, min(x, self.ub))

    def put(self, x):
        if self.locked:
            return
        self.value = int(x) if self.kind.startswith("index") else x
        x = self.value
        k = self.kind
        if k in ("cont", "disc", "int"):
            self.attrs["o0.a"] = x
        elif k == "list":
            for o in ("o0", "o1"):
                self.attrs[o + ".a"] = self.attrs[o + ".b"] = x
        elif k == "scaled":
            self.attrs["o0.a"] = 2.0 * x
        elif k == "scaledlist":
            self.attrs["o0.a"] = self.attrs["o0.b"] = 2.0 * x
        elif k == "fun":
            self.attrs["o0.a"], self.attrs["o0.b"] = x ** 2, x
        elif k == "index":
            self.attrs["o0.a"] = self.attrs["o1.a"] = SECS[x]
        elif k == "indexlist":
            self.attrs["o0.a"] = self.attrs["o0.b"] = SECS[x]
        elif k in ("binsec", "binlist"):
            if x == 1:
                self.attrs["o0.profile"] = "section"
        elif k == "binmem":
            self.attrs["o0.active"] = x == 1
        elif k == "cs":
            self.attrs["o0.cross_section.a"] = self.attrs["o1.cross_section.a"] = x
        elif k == "csscaled":
            self.attrs["o0.cross_section.a"] = self.attrs["o1.cross_section.a"] = 2.0 * x
        elif k in ("funscaled", "csfunscaled"):
            self.attrs["o0.a"], self.attrs["o0.b"] = (2.0 * x) ** 2, 2.0 * x
        elif k == "csfun":
            self.attrs["o0.a"], self.attrs["o0.b"] = x ** 2, x


def make(kind, objs):
    from metku.optimization.variables import Variable, IntegerVariable, BinaryVariable, IndexVariable, DiscreteVariable, CrossSectionVariable
    o0, o1 = objs
    m = Var(kind, 0)
    n = "x " + kind
    if kind == "cont":
        return Variable(n, m.lb, m.ub, target={"property": "a", "objects": [o0]}, value=1)
    if kind == "list":
        return Variable(n, m.lb, m.ub, target_properties=["a", "b"], target_objects=[o0, o1], value=1)
    if kind == "scaled":
        v = Variable(n, 2 * m.lb, 2 * m.ub, target={"property": "a", "objects": [o0]}, value=1)
        v.scale(2.0)
        return v
    if kind == "scaledlist":
        v = Variable(n, 2 * m.lb, 2 * m.ub, target_properties=["a", "b"], target_object=o0, value=1)
        v.scale(2.0)
        return v
    if kind == "fun":
        return Variable(n, m.lb, m.ub, target={"property": ["a", "b"], "objects": [o0]}, target_fun={"a": lambda x: x ** 2}, value=1)
    if kind in ("csscaled", "funscaled", "csfunscaled"):
        cls = Variable if kind == "funscaled" else CrossSectionVariable
        t = {"property": "a", "objects": [o0, o1]} if kind == "csscaled" else {"property": ["a", "b"], "objects": [o0]}
        v = cls(n, 2 * m.lb, 2 * m.ub, target=t, value=1, target_fun=None if kind == "csscaled" else {"a": lambda x: x ** 2})
        v.scale(2.0)
        return v
    if kind == "disc":
        return DiscreteVariable(n, values=[1.0, 2.5, 4.0, 7.0], target={"property": "a", "objects": [o0]}, value=1)
    if kind == "int":
        return IntegerVariable(n, m.lb, m.ub, target_property="a", target_object=o0, value=1)
    if kind == "index":
        return IndexVariable(n, values=list(SECS), target={"property": "a", "objects": [o0, o1]}, value=0)
    if kind == "indexlist":
        return IndexVariable(n, values=list(SECS), target_properties=["a", "b"], target_object=o0, value=0)
    if kind == "binsec":
        return BinaryVariable(n, section="section", target={"property": "profile", "objects": [o0]}, value=1)
    if kind == "binlist":
        return BinaryVariable(n, section="section", target_property="profile", target_object=o0, value=1)
    if kind == "binmem":
        return BinaryVariable(n, target={"property": "member", "objects": [o0]}, value=1)
    if kind == "cs":
        return CrossSectionVariable(n, m.lb, m.ub, target={"property": "a", "objects": [o0, o1]}, value=1)
    return CrossSectionVariable(n, m.lb, m.ub, target={"property": ["a", "b"], "objects": [o0]}, value=1, target_fun={"a": lambda x: x ** 2})


def attr(objs, path):
    p = path.split(".")
    o = objs[int(p[0][1])]
    for q in p[1:]:
        o = getattr(o, q)
    return o


PATHS = [f"o{i}.{p}" for i in (0, 1) for p in ("a", "b", "profile", "active", "cross_section.a", "cross_section.b")]
MIXES = [["cont", "index", "list"], ["scaledlist", "binmem", "disc"], ["indexlist", "binsec", "fun"], ["cs", "int", "scaled"], ["binlist", "csfun", "index"], ["list", "disc", "binmem"], ["csscaled", "index", "csfunscaled"]]


def ops(mix):
    out = []
    for i in range(len(mix)):
        out += [("lock", i, None), ("lock", i, 0), ("unlock", i), ("sub", i, 1)]
    return out + [("all", 0), ("all", 1), ("all", 2), ("obj", 0), ("obj", 1)]


def hist_cases(tier):
    full, part = (4, 5) if tier == "thorough" else (3, 4)
    for n, mix in enumerate(MIXES):
        for w in histories(ops(mix), full if n < 4 or tier == "thorough" else 2, lambda w, a: not (w and w[-1] == a), 1):
            yield {"mix": mix, "ops": w}
    # only one variable of each kind, deeper
    for kind in ("cont", "list", "scaled", "scaledlist", "fun", "disc", "int", "index", "indexlist", "binsec", "binlist", "binmem", "cs", "csfun", "csscaled", "funscaled", "csfunscaled"):
        al = [("lock", 0, None), ("lock", 0, 0), ("lock", 0, 1), ("unlock", 0), ("sub", 0, 0), ("sub", 0, 1), ("all", 0), ("all", 2)]
        for w in histories(al, part, lambda w, a: not (w and w[-1] == a), part):
            yield {"mix": [kind], "ops": w}


def run_hist(case, ctx):
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.objective import ObjectiveFunction
    model = [Var(k, i) for i, k in enumerate(case["mix"])]
    objs = [[NS(a=None, b=None, profile=None, active=True, cross_section=NS(a=None, b=None)) for _ in (0, 1)] for _ in model]
    impl = [make(m.kind, o) for m, o in zip(model, objs)]
    pr = OptimizationProblem(name="p", variables=impl)
    seen = {}
    pr.add(ObjectiveFunction("f", lambda x: seen.__setitem__("x", list(x)) or 0.0))
    X = None
    for op in case["ops"]:
        seen.clear()
        free = [m for m in model if not m.locked]
        if op[0] == "lock":
            m = model[op[1]]
            v = None if op[2] is None else m.pick(op[2])
            impl[op[1]].lock(v)
            if v is not None:
                m.put(v)
            m.locked = True
        elif op[0] == "unlock":
            impl[op[1]].unlock()
            model[op[1]].locked = False
        elif op[0] == "sub":
            impl[op[1]].substitute(model[op[1]].pick(op[2]))
            model[op[1]].put(model[op[1]].pick(op[2]))
        else:
            if not free:
                continue
            x = [m.pick((op[1] + (i if op[1] < 2 else 0)) % 2 if op[1] < 2 else 2) for i, m in enumerate(free)]
            if op[0] == "all":
                pr.substitute_variables(x)
            else:
                pr.obj(x)
            X = [m.clamp(v) for m, v in zip(free, x)]
            for m, v in zip(free, X):
                m.put(v)
            ctx.expect([float(v) for v in pr.X] == [float(v) for v in X], "point", f"{case}: stored point {list(pr.X)}, expected {X}")
            if op[0] == "obj":
                full = [m.value for m in model]
                ctx.expect([float(v) for v in seen["x"]] == [float(v) for v in full], "objective-point", f"{case}: objective was evaluated at {seen['x']}, the full point is {full}")
        for i, (m, v) in enumerate(zip(model, impl)):
            ctx.expect(float(v.value) == float(m.value), "value", f"{case} after {op}: variable {i} is {v.value}, expected {m.value}")
            ctx.expect(v.locked == m.locked, "locked", f"{case} after {op}: variable {i} locked {v.locked}, expected {m.locked}")
            for p in PATHS:
                want = m.attrs.get(p, True if p.endswith("active") else None)
                ctx.expect(attr(objs[i], p) == want, "attribute", f"{case} after {op}: attribute {p} of variable {i} is {attr(objs[i], p)}, expected {want}")
            if m.kind.startswith("index"):
                ctx.expect(v.idx == m.value, "index", f"{case} after {op}: index of variable {i} is {v.idx}, expected {m.value}")
        ctx.expect(pr.vars == [v for v, m in zip(impl, model) if not m.locked], "free", f"{case} after {op}: free variables {pr.vars}")
        ctx.expect(pr.locked_vars == [v for v, m in zip(impl, model) if m.locked], "locked-list", f"{case} after {op}: locked variables {pr.locked_vars}")
        ctx.expect([None if f is None else float(f) for f in pr.fixed_vals] == [float(m.value) if m.locked else None for m in model], "fixed", f"{case} after {op}: fixed values {pr.fixed_vals}")
        fr = [m for m in model if not m.locked]
        ctx.expect([float(x) for x in pr.var_values()] == [float(m.value) for m in fr] and pr.nvars() == len(fr), "values", f"{case} after {op}: values {pr.var_values()}")
        ctx.expect([list(map(float, b)) for b in pr.var_bounds()] == [[float(m.lb) for m in fr], [float(m.ub) for m in fr]] and list(map(float, pr.xlb())) == [float(m.lb) for m in fr] and
                   list(map(float, pr.xub())) == [float(m.ub) for m in fr], "bounds", f"{case} after {op}: bounds {pr.var_bounds()}")
        ctx.step()
    ctx.state(canon([[m.value, m.locked, {k: str(v) for k, v in m.attrs.items()}] for m in model]))


# ---------------------------------------------------------------- tables
TABLES = [[1.0, 2.5, 4.0, 7.0], [7.0, 1.0, 4.0, 2.5], [3.0, 3.5], [10.0, 20.0, 20.5, 100.0, 400.0]]
EPS = [0.0, 5e-5, 2e-4, 5e-3, -5e-5, -2e-4, -5e-3, 0.3]


def table_cases(tier):
    for t in TABLES:
        for v in t + [min(t) - 1, max(t) + 1] + [0.5 * (a + b) for a, b in zip(t, t[1:])]:
            for e in EPS:
                yield {"kind": "disc", "table": t, "x": v + e}
    for lb, ub in ((0, 5), (-3, 3), (2, 2)):
        for v in range(lb - 1, ub + 2):
            for e in EPS + [0.5]:
                yield {"kind": "int", "table": [lb, ub], "x": v + e}


def run_table(case, ctx):
    from metku.optimization.variables import DiscreteVariable, IntegerVariable
    x, t = case["x"], case["table"]
    if case["kind"] == "disc":
        v = DiscreteVariable("d", values=list(t), value=t[0])
        vals = t
    else:
        v = IntegerVariable("i", t[0], t[1], value=t[0])
        vals = list(range(t[0] - 3, t[1] + 4))
    near = min(abs(a - x) for a in vals)
    inside = v.lb <= x <= v.ub
    allowed = inside and near < 1e-4
    ctx.expect((v.lb, v.ub) == (min(t), max(t)), "table-bounds", f"{case}: bounds {v.lb} {v.ub}")
    ctx.expect(bool(v.is_allowed_value(x)) == allowed, "allowed", f"{case}: allowed {v.is_allowed_value(x)}")
    tol = 1e-3 if case["kind"] == "disc" else 1e-4
    ctx.eq(float(v.discrete_violation(x)), 0.0 if near <= tol else near, "violation", f"{case}: violation", 1e-9, 1e-12)
    lo, hi = [a for a in vals if a < x], [a for a in vals if a > x]
    if v.lb < x < v.ub and lo and hi:
        ctx.expect(float(v.smaller_discrete_value(x)) == max(lo) and float(v.larger_discrete_value(x)) == min(hi), "neighbours", f"{case}: {v.smaller_discrete_value(x)} {v.larger_discrete_value(x)}, expected {max(lo)} {min(hi)}")
    ctx.step()
    ctx.state((case["kind"], tuple(t), round(x, 6)))


# ---------------------------------------------------------------- neighbourhood of a continuous point
def neigh_cases(tier):
    xs = [1.2, 3.1, 6.8, 0.1, 8.9]
    for k in (1, 2, 3):
        for mix in (["disc"], ["int"], ["disc", "int"], ["int", "disc", "disc"]):
            for x in itertools.product(xs, repeat=len(mix)):
                yield {"mix": mix, "k": k, "x": list(x)}


def run_neigh(case, ctx):
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.variables import DiscreteVariable, IntegerVariable
    vs, sets = [], []
    for i, kd in enumerate(case["mix"]):
        if kd == "disc":
            vs.append(DiscreteVariable(f"d{i}", values=[7.0, 1.0, 4.0, 2.5], value=1.0))
            vals = [1.0, 2.5, 4.0, 7.0]
        else:
            vs.append(IntegerVariable(f"i{i}", 0, 6, value=1))
            vals = list(range(7))
        sets.append(sorted(vals, key=lambda v: abs(v - case["x"][i]))[:case["k"]])
    pr = OptimizationProblem(variables=vs)
    got = sorted(tuple(float(v) for v in p) for p in pr.discrete_neighborhood(case["x"], case["k"]))
    want = sorted(tuple(float(v) for v in p) for p in itertools.product(*sets))
    ctx.expect(got == want, "neighbourhood", f"{case}: {got}, expected {want}")
    ctx.step()
    ctx.state(tuple(want))


# ---------------------------------------------------------------- groups of variables, real members
def group_cases(tier):
    for w in histories([("sub", 0, 0), ("sub", 0, 1), ("sub", 1, 0), ("sub", 1, 1), ("lock", 0), ("lock", 1), ("unlock", 0), ("both", 0), ("both", 1)], 4 if tier == "thorough" else 3, None, 1):
        for kind in ("cont", "disc", "index", "member"):
            yield {"kind": kind, "ops": w}


def run_group(case, ctx):
    from metku.optimization.structopt import OptimizationProblem
    from metku.optimization.variable_group import VariableGroup, VariableTypeEnum as T
    kind = case["kind"]
    if kind == "member":
        from metku.raami.raami import Raami, FrameNode, SteelFrameMember, FixedSupport
        from metku.sections.steel.RHS import SHS
        fr = Raami()
        for p in ([0, 0], [0, 3000], [4000, 3000]):
            fr.add(FrameNode(p))
        for i, j in ((0, 1), (1, 2)):
            fr.add(SteelFrameMember(nodes=[fr.nodes[i], fr.nodes[j]], section=SHS(100, 4), nel=2))
        fr.add(FixedSupport(fr.nodes[0]))
        fr.generate_fem()
        table = [SHS(80, 4), SHS(120, 5), SHS(150, 6)]
        vs = []
        for m in fr.members.values():
            vs += VariableGroup(name="g", var_type=T.INDEX, object=m, attribute="cross_section", values=list(table)).variables
        vals = [[0, 1], [2, 1]]
        read = lambda i: [table.index(s) if s in table else -1 for s in [fr.members[i].cross_section, fr.members[i].member.profile] + [e.section for e in fr.members[i].fem_elements]]
        expect = lambda i, v: [v] * 4
        init = [[-1] * 4] * 2
    else:
        o = [NS(p=0, q=0, r=0) for _ in (0, 1)]
        if kind == "cont":
            vs = VariableGroup(name="g", var_type=T.CONTINUOUS, objects=o, attributes=[["p", "q"], "r"], lower_bounds=[0, 1], upper_bounds=[8, 9]).variables
            vals = [[2.5, 3.5], [4.5, 7.5]]
        elif kind == "disc":
            vs = VariableGroup(name="g", var_type=T.DISCRETE, objects=o, attributes=["p", "r"], values=[[1, 2, 3], [4.0, 5.0, 6.0]], value=[1, 4.0]).variables
            vals = [[2, 3], [6.0, 5.0]]
        else:
            vs = []
            for i, at in enumerate(("p", "r")):
                vs += VariableGroup(name="g", var_type=T.INDEX, objects=o, attribute=at, values=["u", "v", "w"]).variables
            vals = [[0, 1], [2, 1]]
        read = lambda i: [(x.p if i == 0 else x.r) for x in o] + ([x.q for x in o] if i == 0 and kind == "cont" else [])
        tr = (lambda v: "uvw"[v]) if kind == "index" else (lambda v: v)
        expect = lambda i, v: [tr(v)] * len(read(i))
        init = [read(0), read(1)]
    ctx.expect(len(vs) == 2, "group", f"{case}: {len(vs)} variables")
    pr = OptimizationProblem(variables=vs)
    ctx.expect(all(isinstance(v.value, (int, float)) for v in vs), "group-value", f"{case}: initial values {[v.value for v in vs]}")
    cur, lock = list(init), [False, False]
    for op in case["ops"]:
        if op[0] == "sub":
            vs[op[1]].substitute(vals[op[1]][op[2]])
            if not lock[op[1]]:
                cur[op[1]] = expect(op[1], vals[op[1]][op[2]])
        elif op[0] == "lock":
            vs[op[1]].lock()
            lock[op[1]] = True
        elif op[0] == "unlock":
            vs[op[1]].unlock()
            lock[op[1]] = False
        else:
            fr_ = [i for i in (0, 1) if not lock[i]]
            if not fr_:
                continue
            pr.substitute_variables([vals[i][op[1]] for i in fr_])
            for i in fr_:
                cur[i] = expect(i, vals[i][op[1]])
        for i in (0, 1):
            ctx.expect(read(i) == cur[i], "group-attribute", f"{case} after {op}: attributes of variable {i} are {read(i)}, expected {cur[i]}")
        ctx.step()
    ctx.state((kind, canon([str(c) for c in cur]), tuple(lock)))


def families(tier):
    return [
        Family("histories", lambda: hist_cases(tier), run_hist, "words over lock / unlock / substitute (one, all, outside the bounds) / evaluate, six mixes of variable kinds and each kind alone", "depth 3 for mixes, depth 4 alone (4 and 5)"),
        Family("groups", lambda: group_cases(tier), run_group, "variable groups (continuous, discrete, index) over plain objects and frame members, words over their operations", "depth 3 (4)"),
        Family("tables", lambda: table_cases(tier), run_table, "membership, violation and neighbours in tables of allowed values", "complete product"),
        Family("neighbourhoods", lambda: neigh_cases(tier), run_neigh, "discrete neighbourhood of a point", "complete product"),
    ]
