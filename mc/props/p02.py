"""P02: after any history of edits and analyses the results describe the current model."""
import copy
import itertools
from ..core import Family, canon, histories
from ..ref import frame as RF
from ..drv import fem as D
from .p01 import el, E


def base(kind):
    """small models with an attached edit alphabet; everything needed to rebuild them is plain data"""
    if kind == "frame":
        nodes = [[0, 0], [0, 4000], [6000, 4000], [6000, 0]]
        els = [el("beam", 0, 1, "a"), el("beam", 1, 2, "b"), el("beam", 2, 3, "a")]
        supp = [[1, 0, [0, 1, 2]], [1, 3, [0, 1]]]
        loads = [{"k": "P", "sid": 2, "n": 1, "v": [1e4, 0, 0], "f": 1.0},
                 {"k": "L", "sid": 2, "el": 1, "q": [-5, -5], "dir": "y", "cs": "global", "f": 1.0},
                 {"k": "L", "sid": 3, "el": 1, "q": [-2, -4], "dir": "y", "cs": "local", "f": 1.0},
                 {"k": "L", "sid": 3, "el": 0, "q": [3, 3], "dir": "x", "cs": "global", "f": 1.5}]
    else:
        nodes = [[0, 0], [3000, 0], [6000, 0], [3000, -1250]]
        els = [el("beam", 0, 1, "a"), el("beam", 1, 2, "a"), el("rod", 0, 3, "b"), el("rod", 3, 2, "b"), el("rod", 1, 3, "a")]
        supp = [[1, 0, [0, 1]], [1, 2, [1]]]
        loads = [{"k": "P", "sid": 2, "n": 1, "v": [0, -2e4, 0], "f": 1.0},
                 {"k": "L", "sid": 2, "el": 1, "q": [-5, -5], "dir": "y", "cs": "global", "f": 1.0},
                 {"k": "P", "sid": 3, "n": 3, "v": [5e3, 1e3, 0], "f": 1.0},
                 {"k": "L", "sid": 3, "el": 0, "q": [0, -4], "dir": "y", "cs": "local", "f": 0.5}]
    return {"nodes": nodes, "els": els, "supp": supp, "loads": loads}


EDITS = ["sec", "sec2", "mat", "move", "moveback", "rot", "rel", "unrel", "addP", "addL", "dupL", "delL", "factor", "value",
         "supp+", "supp-", "brace", "node", "lcase"]
SOLVES = ["s2R", "s2Z", "s3R", "s23R", "s23Z"]


class Sys:
    """lockstep pair: plain description (reference) and the real model"""

    def __init__(self, kind):
        self.kind = kind
        self.m = base(kind)
        self.cases = [[1, 2], [1, 3]]
        self.f, self.loads = D.build(self.m, self.cases)
        self.expect = {}
        self.ndof_changed = False

    def enabled(self, op):
        return True

    def apply(self, op, ctx):
        m, f = self.m, self.f
        if op in ("sec", "sec2"):
            e = 0 if op == "sec" else 1
            A, I = (5200.0, 30e6) if m["els"][e]["A"] != 5200.0 else (900.0, 1e6)
            m["els"][e].update(A=A, I=I)
            if op == "sec":
                f.elements[e].section.A = A
                f.elements[e].section.I[0] = I
            else:  # exchange the section object
                from metku.framefem.framefem import BeamSection
                f.elements[e].section = BeamSection(A, I)
        elif op == "mat":
            m["els"][1]["E"] = 70e3 if m["els"][1]["E"] != 70e3 else 100e3
            f.elements[1].material.young = m["els"][1]["E"]
        elif op == "move":
            m["nodes"][1] = [m["nodes"][1][0] + 500.5, m["nodes"][1][1] + 1000]
            f.nodes[1].x, f.nodes[1].y = m["nodes"][1]
        elif op == "rot":  # a move that keeps the length of elements
            i, xy = (1, [2400, 3200]) if self.kind == "frame" else (3, [3000, 1250])
            m["nodes"][i] = xy
            f.nodes[i].x, f.nodes[i].y = xy
        elif op == "moveback":
            m["nodes"][1] = list(base(self.kind)["nodes"][1])
            f.nodes[1].x, f.nodes[1].y = m["nodes"][1]
        elif op == "rel":
            m["els"][1]["rel"] = [2] if m["els"][1].get("rel") != [2] else [5]
            f.elements[1].releases = list(m["els"][1]["rel"])
        elif op == "unrel":
            m["els"][1]["rel"] = []
            f.elements[1].releases = []
        elif op in ("addP", "addL", "dupL"):
            ld = {"addP": {"k": "P", "sid": 3, "n": 1, "v": [0, -7e3, 2e6], "f": 1.0},
                  "addL": {"k": "L", "sid": 2, "el": 0, "q": [1, 2], "dir": "x", "cs": "global", "f": 1.0},
                  "dupL": {"k": "L", "sid": 2, "el": 1, "q": [-3, -1], "dir": "y", "cs": "local", "f": 2.0}}[op]
            m["loads"].append(dict(ld))
            self.loads.append(D.add_load(f, ld))
        elif op == "delL":
            if len(m["loads"]) > 1:
                m["loads"].pop(1)
                f.loads.remove(self.loads.pop(1))
        elif op == "factor":
            m["loads"][-1]["f"] = m["loads"][-1]["f"] * 1.5 + 0.25
            self.loads[-1].f = m["loads"][-1]["f"]
        elif op == "value":
            ld = m["loads"][0]
            if ld["k"] == "P":
                ld["v"] = [ld["v"][0] + 3e3, ld["v"][1] - 1e3, 1e5]
                self.loads[0].v = list(ld["v"])
        elif op == "supp+":
            m["supp"].append([1, 2, [0, 1]])
            f.add_support(1, 2, [0, 1])
        elif op == "supp-":
            if len(m["supp"]) > 2:
                m["supp"].pop()
                f.supports.pop()
        elif op == "brace":
            e = el("rod", 0, 2, "b")
            m["els"].append(e)
            D.add_element(f, e)
            f.nodal_dofs()
        elif op == "node":
            k = len(m["nodes"])
            m["nodes"].append([3000 + 700 * k, 6000])
            f.add_node(*m["nodes"][-1])
            e = el("beam", 1, k, "b")
            m["els"].append(e)
            D.add_element(f, e)
            ld = {"k": "P", "sid": 2, "n": k, "v": [2e3, -3e3, 0], "f": 1.0}
            m["loads"].append(dict(ld))
            self.loads.append(D.add_load(f, ld))
            f.nodal_dofs()
        elif op == "lcase":
            lid = 10 + len(self.cases)
            ld = {"k": "L", "sid": lid, "el": 0, "q": [2, -1], "dir": "y", "cs": "local", "f": 1.0}
            m["loads"].append(dict(ld))
            self.loads.append(D.add_load(f, ld))
            f.add_loadcase(supp_id=1, load_id=lid)
            self.cases.append([1, lid])
        else:
            ids = [2] if op[1:-1] == "2" else [3] if op[1:-1] == "3" else [c[1] for c in self.cases]
            meth = "REM" if op[-1] == "R" else "ZERO"
            try:
                want = {l: RF.solve(m, 1, l) for l in ids}
            except RF.Singular:
                ctx.undefined += 1
                return False
            f.linear_statics(ids if len(ids) > 1 else ids[0], support_method=meth)
            for l in ids:
                self.expect[l] = want[l]
                ctx.state((canon(want[l][0], 4), l))
            for l, w in self.expect.items():
                if len(w[0]) == len(m["nodes"]) and len(w[1]) == len(m["els"]):
                    D.compare(ctx, D.observe(f, l), w, "current" if l in ids else "other-case", f"load case {l} after {op}", 2e-6, 6000.0)
        return True


def run(case, ctx):
    s = Sys(case["kind"])
    for op in case["ops"]:
        if not s.apply(op, ctx):
            return
    # closing analyses: both methods, every case
    for op in case.get("close", ("s2R", "s23Z", "s3R")):
        if not s.apply(op, ctx):
            return


def ok(w, a):
    # pruning of words whose prefix already made the letter a no-op / equal to a shorter word
    if a == "moveback" and "move" not in w:
        return False
    if a == "unrel" and "rel" not in w:
        return False
    if a == "supp-" and "supp+" not in w:
        return False
    if w and a == w[-1] and a in SOLVES:
        return False
    return True


def cases(depth):
    for kind in ("frame", "truss"):
        for w in histories(EDITS + SOLVES, depth, ok):
            yield {"kind": kind, "ops": w}


def families(tier):
    deep = tier == "thorough"
    d = 4 if deep else 3
    return [Family("histories", lambda: cases(d), run, "all words over 18 edits and 5 analyses, closed by analyses of all cases with both methods",
                   f"words of length <= {d} on 2 models")]
