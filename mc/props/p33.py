"""P33: the optimisation problem of a frame has exactly the requested constraints and they measure what they are named after.

Reference: the frame is described as in P27 and solved by mc/ref/frame.py; resistances are those of
mc/ref/ec3.py for the section that the design variables stand for (mc/drv/sections.py).
"""
import itertools
import math
import re
from ..core import Family, histories, canon, short
from ..ref import frame as RF, ec3
from ..drv import sections as SEC
from . import p13, p27

KEYS = ["compression", "tension", "shear", "bending_moment", "buckling_y", "buckling_z", "lt_buckling",
        "compression_bending_y", "compression_bending_z", "web_class", "flange_class", "deflection_x", "deflection_y"]
LIM = {"deflection_x": 13.0, "deflection_y": 21.0}
I_PROFS = ["IPE 200", "HE 200 A", "HE 300 B", "IPE 500"]
H_PROFS = ["SHS 150X6.0", "RHS 200X100X8.0", "HE 240 A", "SHS 90X3.0"]


def L_(m, q, d="y", lid="U", f=1.0):
    return {"k": "L", "m": m, "q": q, "dir": d, "cs": "global", "id": lid, "f": f}


def P_(c, v, lid="U", f=1.0):
    return {"k": "P", "c": c, "v": v, "id": lid, "f": f}


LOADS = {
    "down": lambda ms: [L_(i, [-20, -8]) for i, m in enumerate(ms) if m["kind"] == "beam" or i == len(ms) // 2],
    "wind": lambda ms: [L_(0, [4, 6], "x"), P_(p27.at(ms[-1], 1.0), [3e4, 2e4, 0])],
    "cases": lambda ms: [L_(len(ms) // 2, [-12, -18]), P_(p27.at(ms[0], 1.0), [-4e4, 1e4, 2e6], "S"), L_(0, [5, -1], "x", "A", 1.5)],
    "lift": lambda ms: [L_(len(ms) // 2, [6, 2], lid="A"), P_(p27.at(ms[0], 0.5), [1e3, 5e4, 0], "S", 1.35)],
}
FRAMES = ["beam", "two-span", "portal", "portal-pins", "semi-one", "gable", "cross", "tee-first", "two-storey", "hinge-1"]


def section(name):
    """-> kind, dimensions, properties"""
    if name.startswith("WI"):
        h, tw, tt, bt, tb, bb = (float(v) for v in name.split()[1].replace("X", "-").split("-"))
        d = dict(h=h, tw=tw, tt=tt, bt=bt, tb=tb, bb=bb, fy="S355")
        return "WI", d, SEC.ref("WI", d)
    if name.startswith("SHS") and name.count("X") == 1:
        name = "SHS {0}X{0}X{1}".format(*name.split()[1].split("X"))
    kind, d = p13.dims_of(name)
    d = dict(d, fy="S355")
    return kind, d, SEC.ref(kind, d)


def fits(name, key):
    kind = section(name)[0]
    return kind in ("I", "WI") if key == "lt_buckling" else True


class Problem:
    """a frame, its problem and the plain data that describe both"""

    def __init__(self, layout, load, groups="bc", constraints=None, con_groups=None, ne=4, profs=None, start=0):
        from metku.optimization.problems.structural_problem import StructuralProblem
        ms, su = p27.LAYOUTS[layout]
        ms = [dict(m) for m in ms]
        self.S = p27.Model(ms, su, LOADS[load](ms), ne)
        self.lids = [x for x in "USA" if any(l["id"] == x for l in self.S.loads)]
        n = len(ms)
        beams = [i for i in range(n) if ms[i]["kind"] == "beam"] or [0]
        self.vals, vg, self.welded = [], None, []
        if groups == "bc":
            parts = [beams, [i for i in range(n) if i not in beams]]
        elif groups == "all":
            parts = [list(range(n))]
        elif groups == "each":
            parts = [[i] for i in range(n)]
        elif groups in ("welded", "welded-discrete"):
            self.welded, parts = [i for i in range(n) if i not in beams], None
            for i in self.welded:
                self.S.ms[i].profile = ms[i]["prof"] = self.S.mems[i]["prof"] = "WI 300-8-20X160-12X220"
            secs = [self.S.ms[i].cross_section for i in self.welded]
            names, vv = ["h", "tw", "b", "tf"], [300, 8, 160, 12]
            if groups == "welded":
                vg = [{"name": "C", "var_type": "continuous", "properties": names[:3], "bounds": [[200, 500], [4, 10], [100, 300]], "values": vv[:3], "objects": secs},
                      {"name": "T", "var_type": "continuous", "property": "tf", "lb": 5, "ub": 20, "value": 12, "objects": secs}]
            else:
                vg = [{"name": k, "var_type": "discrete", "property": k, "values": list(w), "value": w[0], "objects": secs} for k, w in zip(names, GRID)]
        elif groups == "one":      # the other members are not variables
            parts = [beams]
        else:
            parts = None
        lists = profs or [I_PROFS, H_PROFS]
        if parts is not None:
            self.parts = [p for p in parts if p]
            self.vals = [lists[i % len(lists)] for i in range(len(self.parts))]
            vg = [{"name": f"G{i}", "var_type": "index", "value": start, "values": list(v), "property": "profile",
                   "objects": [self.S.ms[j] for j in p]} for i, (p, v) in enumerate(zip(self.parts, self.vals))]
        else:
            self.parts = [[i] for i in range(n)]
            self.vals = [I_PROFS] * n
        base = dict.fromkeys(KEYS[:4], True) if constraints is None else constraints
        self.want = [dict(base) for _ in ms]
        cg = None
        if con_groups is not None:
            cg = []
            for g, c in con_groups:
                cg.append({"objects": [self.S.ms[j] for j in g if j < n], "constraints": dict(c)})
                for j in g:
                    if j < n:
                        self.want[j] = dict(base, **c)
        self.pr = StructuralProblem(structure=self.S.fr, var_groups=vg, con_groups=cg, constraints=constraints, profiles=I_PROFS if vg is None else None)
        self.cache = {}
        self.cls = [3 if m["prof"].startswith("WI") else 2 for m in ms]

    def set(self, x):
        """design that the variable values stand for"""
        if self.welded:
            for j in self.welded:
                h, tw, b, tf = x[:4]
                self.S.mems[j]["prof"] = f"WI {h}-{tw}-{tf}X{b}-{tf}X{b}"
            return
        for i, p in enumerate(self.parts):
            for j in p:
                self.S.mems[j]["prof"] = self.vals[i][x[i]]

    def mine(self, j, c):
        return any(o is self.S.ms[j] for o in (c.vars if isinstance(c.vars, (list, tuple)) else [c.vars]))

    def by_member(self):
        """constraint objects per (member, name)"""
        out = {}
        for c in self.pr.cons:
            for j in range(len(self.S.ms)):
                if self.mine(j, c):
                    out.setdefault((j, c.name.split(":")[0]), []).append(c)
        return out

    # ------------------------------------------------ reference
    def solve(self):
        """per member: section, list of element ends (N, V, M, relative place), per load id; displacements"""
        S = self.S
        k = tuple(m["prof"] for m in S.mems)
        if k in self.cache:
            return self.cache[k]
        secs = [section(m["prof"]) for m in S.mems]
        M, segs, node = p27.build(S.mems, S.sup, S.loads, [(s[2]["A"], s[2]["I"][0]) for s in secs], S.points())
        res = []
        for j, (m, o) in enumerate(zip(S.mems, S.ms)):
            res.append({"sec": secs[j], "L": math.dist(*m["c"]), "ends": {}, "u": []})
        for lid in self.lids:
            U0, F0 = RF.solve(M, 1, lid)
            for j, o in enumerate(S.ms):
                start, end = {a: e for e, _, _, a, b in segs[j]}, {b: e for e, _, _, a, b in segs[j]}
                c0 = S.mems[j]["c"][0]
                ends = []
                for el in o.elements.values():
                    for side, n in enumerate(el.nodes):
                        i = node(n.coord)
                        e = start[i] if side == 0 else end[i]
                        ends.append((round(math.dist(n.coord, c0) / res[j]["L"], 3), F0[e]["fx"][side], F0[e]["fz"][side], F0[e]["my"][side]))
                res[j]["ends"][lid] = ends
                res[j]["u"] += [U0[node(n.coord), :2] for n in o.nodes.values()]
        self.cache[k] = res
        return res

    def reference(self, j, key):
        """-> value of the constraint function of member j (greatest over its elements) or None when it is within a hair of another branch"""
        R = self.solve()[j]
        kind, d, p = R["sec"]
        if key in LIM:
            return max(abs(u["xy".index(key[-1])]) for u in R["u"]) / self.want[j][key] - 1
        if key in ("web_class", "flange_class"):
            e = math.sqrt(235 / p["fy"])
            dim = p["dim"]
            if kind == "I":
                return dim["hw"] / d["tw"] - 42 * e if key == "web_class" else dim["cf"] / d["tf"] - 14 * e
            if kind == "WI":
                return dim["cw"] / d["tw"] - 42 * e if key == "web_class" else dim["cf_top"] / d["tt"] - 14 * e
            return dim["c_web" if key == "web_class" else "c_flange"] / d["T"] - 38 * e
        every = [x for l in self.lids for x in R["ends"][l]]
        NRd = p["A"] * p["fy"]
        if key in ("compression", "tension"):
            return max((-1 if key == "compression" else 1) * x[1] for x in every) / NRd - 1
        if key == "shear":
            return max(abs(x[2]) for x in every) / (p["Ashear"][1] * p["fy"] / math.sqrt(3)) - 1
        if key == "bending_moment":
            w = []
            for x in every:
                c, near = ec3.section_class(kind, p, d, x[1], x[3])
                if near or kind == "WI" and c == 4:     # effective sections are not compared here
                    return None
                w.append(abs(x[3]) / ec3.bending(kind, p, c))
            return max(w) - 1
        w = []
        for l in self.lids:
            at = {}
            for loc, N, V, M in R["ends"][l]:
                f = at.setdefault(loc, [0.0, 0.0, 0.0])
                for i, v in enumerate((N, M, V)):
                    f[i] = max(f[i], v, key=abs)
            forces = [(loc,) + tuple(f) for loc, f in sorted(at.items())]
            q = ec3.member(kind, p, d, R["L"], [1.0, 1.0], forces, cls=self.cls[j], G=210e3 / 2.6)
            if key.startswith("buckling"):
                w.append(-min(f[1] for f in forces) / q["NbRd"]["yz".index(key[-1])])
                continue
            if max(abs(f[2]) for f in forces) < 1.0:     # no moments, but for rounding
                return None
            if key == "lt_buckling":
                if q["near"] or kind == "WI" and q["class"] == 4:
                    return None
                w.append(q["LT"])
            else:
                big = max(abs(f[2]) for f in forces)
                if all(f[0] != 0.5 for f in forces) and max(abs(f[2]) for f in forces if f[0] in (0, 1)) < 1e-6 * big:
                    return None       # ratio of end moments that are zero but for rounding
                w.append(q["bc"]["yz".index(key[-1])])
        return max(w) - 1

    def check_keys(self, ctx, key, what):
        cons = self.by_member()
        for j, want in enumerate(self.want):
            exp = sorted(k for k, v in want.items() if v and fits(self.S.mems[j]["prof"], k))
            got = sorted(k for (i, k) in cons if i == j)
            ctx.expect(got == exp, key, f"{what}: constraints of member {j}: {got}, requested {exp}")
            for k in exp:
                n = len(cons.get((j, k), []))
                w = len(self.S.ms[j].elements) if k in KEYS[:4] else 1
                ctx.expect(n == w, key, f"{what}: member {j} has {n} constraints {k}, expected {w}")
        ctx.expect(all(sum(self.mine(j, c) for j in range(len(self.S.ms))) == 1 for c in self.pr.cons), key, f"{what}: constraints of no member")

    def check_values(self, ctx, x, key, what, only=None):
        """values of all constraints at x"""
        self.set(x)
        worst = -9.0
        for (j, k), cs in sorted(self.by_member().items(), key=lambda v: v[0]):
            if k == "lt_buckling" and not fits(self.S.mems[j]["prof"], k):
                continue
            if only is not None and k not in only:
                continue
            g = max(float(c(x)) for c in cs)
            w = self.reference(j, k)
            if w is None:
                ctx.undefined += 1
                continue
            worst = max(worst, w)
            tol = 2e-4 * max(1.0, abs(w + 1)) if "class" not in k else 1e-2
            ctx.expect(abs(g - w) <= tol or (w < -1 + tol and g < -1 + tol and k[0] == "b"), key + "-" + k, f"{what}: {k} of member {j} ({self.S.mems[j]['prof']}) at {x}: {g}, reference {w}")
            ctx.state((k, round(w, 4)))
        f = float(self.pr.obj(x))
        ctx.eq(f, sum(section(m["prof"])[2]["A"] * 7850e-9 * math.dist(*m["c"]) for m in self.S.mems), key + "-weight", f"{what}: objective at {x}", 2e-4)
        return worst


GRID = [[250, 400], [5, 9], [120, 240], [8, 16]]
ALL = dict(dict.fromkeys(KEYS, True), **LIM)


def points(groups, layout, tier):
    n = len(p27.LAYOUTS[layout][0])
    beams = [m for m in p27.LAYOUTS[layout][0] if m["kind"] == "beam"]
    k = {"bc": min(2, n) if len(beams) not in (0, n) or not beams and n > 1 else 1, "all": 1, "each": n, "one": 1, None: n}[groups]
    out = list(itertools.product(range(4), repeat=k))
    if len(out) > 16:      # neighbouring points of every variable
        out = [tuple((a + b * i) % 4 for i in range(k)) for a in range(4) for b in range(4)]
    return [list(x) for x in out]


# ---------------------------------------------------------------- values
def value_cases(tier):
    for layout in FRAMES:
        for load in LOADS:
            for groups in ("bc", "each", None) if tier == "quick" else ("bc", "all", "each", "one", None):
                for ne in (2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
                    if tier == "quick" and (groups != "bc") and ne == 3:
                        continue
                    yield {"layout": layout, "load": load, "groups": groups, "ne": ne}


def run_value(case, ctx):
    P = Problem(case["layout"], case["load"], case["groups"], ALL, ne=case["ne"])
    what = str(case)
    P.check_keys(ctx, "requested", what)
    for x in points(case["groups"], case["layout"], "quick"):
        try:
            P.check_values(ctx, x, "value", what)
        except RF.Singular:
            ctx.undefined += 1
            return
        P.pr.cons[0](x)
        v = max(float(c(x)) for c in P.pr.cons)
        if abs(v) > 1e-6:
            ctx.expect(bool(P.pr.feasible(x)) == (v <= P.pr.con_tol), "feasible", f"{what}: feasible({x}) {P.pr.feasible(x)}, greatest constraint {v}")


def welded_cases(tier):
    for layout in ("portal", "portal-pins", "semi-one", "two-storey", "gable"):
        for load in LOADS:
            for g in ("welded", "welded-discrete"):
                for ne in (2, 4) if tier == "quick" else (1, 2, 3, 4, 6):
                    for order in range(2 if tier == "quick" else 4):
                        yield {"layout": layout, "load": load, "groups": g, "ne": ne, "order": order}


def run_welded(case, ctx):
    P = Problem(case["layout"], case["load"], case["groups"], ALL, ne=case["ne"])
    P.check_keys(ctx, "requested", str(case))
    ctx.expect(len(P.pr.vars) == 4, "variables", f"{case}: {len(P.pr.vars)} variables")
    xs = [list(x) for x in itertools.product(*GRID)]
    xs = [xs, xs[::-1], xs[::3] + xs[1::3] + xs[2::3], xs[5:] + xs[:5]][case["order"]]
    for x in xs:
        P.check_values(ctx, x, "welded", str(case))


# ---------------------------------------------------------------- which constraints
def set_cases(tier):
    for a in range(len(KEYS) + 1):
        for b in range(a, len(KEYS) + 1):
            yield {"on": sorted({KEYS[i] for i in (a, b) if i < len(KEYS)}, key=KEYS.index), "rest": "missing" if (a + b) % 2 else "off", "group": None}
    subs = [[0], [1], [0, 2], [0, 1, 2], [2, 1]]
    for base in ("default", "none", "all"):
        for g in subs:
            for k in KEYS:
                for v in (True, False):
                    yield {"base": base, "group": [[g, {k: v}]]}
        for g1, g2 in itertools.permutations(subs, 2):
            for k1, k2 in (("shear", "buckling_y"), ("deflection_y", "deflection_x"), ("tension", "tension"), ("lt_buckling", "web_class")):
                yield {"base": base, "group": [[g1, {k1: base != "all"}], [g2, {k2: base == "none"}]]}


def run_set(case, ctx):
    def v(k, on):
        return (LIM[k] * 0.7 if k in LIM else True) if on else (None if k in LIM else False)
    if case["group"] is None:
        c = {k: v(k, True) for k in case["on"]}
        if case["rest"] == "off":
            c.update({k: v(k, False) for k in KEYS if k not in c})
        P = Problem("portal", "cases", "bc", c, ne=2)
    else:
        base = {"default": None, "none": {}, "all": ALL}[case["base"]]
        P = Problem("portal", "cases", "bc", base, con_groups=[[g, {k: v(k, on) for k, on in c.items()}] for g, c in case["group"]], ne=2)
    P.set([0, 0])
    for j in range(3):
        P.S.mems[j]["prof"] = p27.PORTAL[j]["prof"]
    P.check_keys(ctx, "requested", str(case))
    P.check_values(ctx, [1, 2], "set", str(case))
    if P.pr.cons:
        ctx.expect(len(P.pr.eval_cons([1, 2])) == len(P.pr.cons), "set", f"{case}: number of values")


# ---------------------------------------------------------------- histories
OPS = ["sub:0,0", "sub:3,1", "sub:1,2", "con:2,0:bending_moment", "con:0,3:buckling_y", "con:1,1:web_class", "obj:2,2", "lock:0", "free", "calcU", "calcS", "assign", "feas"]


def hist_cases(tier):
    # every word is followed by a complete evaluation at two points
    for w in histories(OPS, 2 if tier == "quick" else 3, mindepth=1, enabled=lambda w, a: not (w and w[-1] == a)):
        yield w


def run_hist(word, ctx):
    P = Problem("portal", "cases", "bc", ALL, ne=2)
    pr, I = P.pr, p27.ids()
    cur = [0, 0]
    locked = {}
    every = list(pr.vars)

    def full(x):
        return [locked.get(i, v) for i, v in enumerate(x)]

    def free(x):
        return [v for i, v in enumerate(x) if i not in locked]
    for op in word:
        a, _, b = op.partition(":")
        if a in ("sub", "con", "obj"):
            x = [int(v) for v in b.split(":")[0].split(",")]
            cur = full(x)
            if a == "sub":
                pr.substitute_variables(free(x))
            elif a == "obj":
                pr.obj(free(x))
            else:
                k = b.split(":")[1]
                cs = P.by_member()[(1, k)]
                g = max(float(c(free(x))) for c in cs)
                P.set(cur)
                w = P.reference(1, k)
                ctx.expect(w is None or abs(g - w) <= 1e-2 * max(1, abs(w)), "history-single", f"{word}: {k} at {cur}: {g}, reference {w}")
        elif a == "lock":
            v = every[int(b)]
            if not locked:
                v.lock(2)
                locked = {int(b): 2}
                cur = full(cur)
        elif a == "free":
            for v in every:
                v.unlock()
            locked = {}
        elif a == "calcU":
            P.S.fr.calculate(I["U"], "REM")
        elif a == "calcS":
            P.S.fr.calculate(I["S"], "REM", design=False)
        elif a == "assign":
            P.S.fr.assign_forces(I["S"])
        elif a == "feas":
            pr.feasible()
    for x in ([1, 0], [3, 2]):
        P.set(full(x))
        for (j, k), cs in sorted(P.by_member().items(), key=lambda v: v[0]):
            if not fits(P.S.mems[j]["prof"], k):
                continue
            g = max(float(c(free(x))) for c in cs)
            w = P.reference(j, k)
            if w is None:
                ctx.undefined += 1
                continue
            ctx.expect(abs(g - w) <= (2e-4 if "class" not in k else 1e-2) * max(1.0, abs(w + 1)) or (w < -1 and g < -1), "history-" + k,
                       f"{word}: then {k} of member {j} at {full(x)}: {g}, reference {w}")
            ctx.state((k, canon(round(w, 4))))


def families(tier):
    return [
        Family("values", lambda: value_cases(tier), run_value, "frame x loads x grouping of the variables x elements per member, all (or 16) combinations of profiles, all constraints",
               f"{len(FRAMES)} frames, {len(LOADS)} sets of loads with up to three load cases, four profiles per variable"),
        Family("welded", lambda: welded_cases(tier), run_welded, "frame x loads x continuous or discrete dimensions of welded columns, all 16 points of a grid in two (four) orders", "5 frames, 4 sets of loads, 4 variables"),
        Family("requested", lambda: set_cases(tier), run_set, "every pair of requested constraints; groups of members with own constraints", "all pairs; every constraint on and off in five groups; pairs of groups"),
        Family("history", lambda: hist_cases(tier), run_hist, "every sequence of substitutions, single evaluations, analyses and locked variables before an evaluation", "depth 2 (3) over 13 operations"),
    ]
