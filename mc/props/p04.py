"""P04: bookkeeping of loads in a frame model (each load acts exactly once, under its own load case)."""
from ..core import Family, canon, histories
from ..drv import raami as D

DESC = {"nodes": [[0, 0], [0, 4000], [6000, 4000], [6000, 0]],
        "members": [{"n": [0, 1], "sec": "HEA 200", "type": "column"}, {"n": [1, 2], "sec": "IPE 300"},
                    {"n": [2, 3], "sec": "HEA 200", "type": "column"}, {"n": [0, 2], "sec": "SHS 80 5", "type": "brace", "nel": 1}],
        "supp": [[0, "fix"], [3, "xy"]]}

L = {
    "P1": {"k": "P", "lid": 2, "n": 1, "v": [1e4, 0, 0]},
    "P2": {"k": "P", "lid": 3, "n": 2, "v": [0, -2e4, 1e6], "f": 1.5, "name": "PointLoad"},
    "P3": {"k": "P", "lid": 2, "n": 2, "v": [-3e3, 1e3, 0], "name": "PointLoad1"},
    "L1": {"k": "L", "lid": 2, "m": 1, "q": [-5, -5], "dir": "y", "cs": "global"},
    "L2": {"k": "L", "lid": 3, "m": 1, "q": [-1, -3], "dir": "y", "cs": "local", "f": 2.0, "name": "LineLoad"},
    "L3": {"k": "L", "lid": 2, "m": 0, "q": [2, 2], "dir": "x", "cs": "global", "name": "PointLoad"},
    "W1": {"k": "W", "lid": 3, "m": 0, "q": [2, 3], "xdiv": 0.5, "dir": "x", "cs": "global"},
    "B1": {"k": "L", "lid": 2, "m": 3, "q": [-1, -2], "dir": "y", "cs": "global"},
    "W2": {"k": "W", "lid": 3, "m": 2, "q": [1, -2], "xdiv": 0.5, "dir": "x", "cs": "global", "f": 1.5},
}
CASES = {"C4": [4, [dict(L["P1"], name="LineLoad"), dict(L["L1"])]],
         "C2": [2, [dict(L["P2"], name="PointLoad"), dict(L["L2"], name="LineLoad1")]]}
ADDS = list(L) + list(CASES)
OPS = ADDS + ["again", "swon", "swoff", "sec", "gen", "ana"]


class Sys:
    def __init__(self):
        self.d = {k: [dict(x) if isinstance(x, dict) else list(x) for x in v] for k, v in DESC.items()}
        self.fr = D.build(self.d)
        self.ledger = []
        self.sw = []
        self.last = None
        self.nsec = 0

    def all(self):
        return self.ledger + self.sw

    def apply(self, op, ctx):
        fr = self.fr
        if op in L:
            o = D.make_load(fr, L[op])
            fr.add(o)
            self.ledger.append(dict(L[op]))
            self.last = o
        elif op in CASES:
            from metku.raami.raami import LoadCase
            lid, ls = CASES[op]
            objs = [D.make_load(fr, dict(l, lid=lid)) for l in ls]
            fr.add(LoadCase(load_id=lid, loads=objs))
            self.ledger += [dict(l, lid=lid) for l in ls]
            self.last = objs[0]
        elif op == "again":
            if self.last is not None:
                fr.add(self.last)
        elif op == "swon":
            fr.add_self_weight()
            self.sw = [{"k": "L", "lid": 100, "m": k, "q": [D.selfweight(fr, k)] * 2, "dir": "y", "cs": "global"}
                       for k in range(len(self.d["members"]))]
        elif op == "swoff":
            fr.remove_self_weight()
            self.sw = []
        elif op == "sec":
            self.nsec += 1
            self.fr.members[1].cross_section = D.section(["IPE 400", "HEB 200", "IPE 300"][self.nsec % 3 - 1])
        elif op == "gen":
            fr.generate_fem()
        elif op == "ana":
            self.check(ctx, op)
        return True

    def lids(self):
        return sorted({l["lid"] for l in self.all()})

    def check(self, ctx, what):
        fr = self.fr
        fr.generate_fem()
        lids = self.lids()
        if not lids:
            return
        fr.structural_analysis("all", "REM", design=False)
        want = D.reference(self.d, fr, self.all(), lids)
        for lid in lids:
            D.compare(ctx, fr, want[lid], lid, "loads", what)
            ctx.state((lid, canon(want[lid][1]["My"], 4)))
        for lid in fr.load_cases:  # a case without loads must do nothing
            if lid not in lids:
                mx = max(abs(float(v)) for m in fr.members.values() for v in m.nodal_forces[lid]["N"])
                ctx.eq(mx, 0.0, "empty-case", f"load case {lid} without loads")
        names = [l.name for l in fr.loads.values()]
        ctx.expect(len(set(names)) == len(names) and all(k == v.name for k, v in fr.loads.items()), "names", f"load names not unique: {names}")
        ctx.expect(len(fr.loads) == len(self.all()), "count", f"{len(fr.loads)} loads registered, {len(self.all())} expected")
        for lid in lids:
            n = sum(l["lid"] == lid for l in self.all())
            ctx.expect(len(fr.load_cases[lid].loads) == n, "case-count", f"load case {lid} holds {len(fr.load_cases[lid].loads)} loads, expected {n}")
        ctx.expect(sorted(set(fr.load_ids)) == sorted(fr.load_ids) and set(lids) <= set(fr.load_ids), "load-ids", f"load ids {fr.load_ids}")


def run(case, ctx):
    s = Sys()
    for op in case:
        s.apply(op, ctx)
    s.check(ctx, "end of history")
    if "gen" in case or "ana" in case:  # generating the mesh again must not double anything
        s.check(ctx, "generated again")


def enabled(w, a):
    if a == "again":
        return bool(w) and w[-1] in ADDS
    if a in ("gen", "ana"):
        return bool(w) and w[-1] not in ("gen", "ana")
    if a == "swoff":
        return "swon" in w
    return True


def families(tier):
    deep = tier == "thorough"
    d = 4 if deep else 3
    small = ["P1", "P2", "L1", "C2", "again", "swon", "swoff", "sec", "ana"]
    d2 = 6 if deep else 5
    sub = ["P1", "L1", "again", "swon", "swoff", "ana"]
    return [Family("ledger", lambda: histories(OPS, d, enabled, 1), run,
                   "all words over 17 operations (adding point/line/piecewise loads with default and colliding names, load cases, adding twice, self-weight on/off, section change, meshing, analysis)", f"depth {d}"),
            Family("ledger-mid", lambda: histories(small, d + 1, enabled, d + 1), run, "all words over 9 of the operations", f"depth {d+1}"),
            Family("ledger-long", lambda: histories(sub, d2, enabled, d2), run, "all words over 6 of the operations", f"depth {d2}")]
