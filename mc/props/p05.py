"""P05: load combinations apply the EN 1990 factors to every load of their load cases, once."""
import itertools
from ..core import Family, canon, histories
from ..drv import raami as D

DESC = {"nodes": [[0, 0], [0, 4000], [6000, 4000], [6000, 0]],
        "members": [{"n": [0, 1], "sec": "HEA 200", "type": "column", "nel": 1}, {"n": [1, 2], "sec": "IPE 300"},
                    {"n": [2, 3], "sec": "HEA 200", "type": "column", "nel": 1}],
        "supp": [[0, "fix"], [3, "xy"]]}

# characteristic loads per load case id; two loads each, one with a factor of its own
POOL = {
    "dead": [{"k": "L", "m": 1, "q": [-5, -5], "dir": "y", "cs": "global"}, {"k": "P", "n": 1, "v": [0, -2e4, 0], "f": 1.5}],
    "live": [{"k": "L", "m": 1, "q": [-3, -3], "dir": "y", "cs": "local", "f": 2.0}, {"k": "P", "n": 2, "v": [0, -7e3, 0]}],
    "snow": [{"k": "L", "m": 1, "q": [-2, -6], "dir": "y", "cs": "global"}],
    "wind": [{"k": "L", "m": 0, "q": [2, 2], "dir": "x", "cs": "global"}, {"k": "P", "n": 1, "v": [9e3, 0, 0], "f": 0.5}],
}
PSI0 = {"live": 0.7, "snow": 0.7, "wind": 0.6}
IDS = {"dead": 10, "live": 11, "snow": 12, "wind": 13, "live2": 14, "dead2": 15}


def factor(kind, lim, lead):
    """EN 1990 (6.10b, KFI = 1.0, Finnish NA permanent 1.15) / characteristic combination (6.14b)"""
    if kind == "dead":
        return 1.15 if lim == "ULS" else 1.0
    return (1.5 if lim == "ULS" else 1.0) * (1.0 if lead else PSI0[kind])


class Sys:
    def __init__(self, kinds, order="case"):
        from metku.raami.raami import LoadCase
        self.fr = D.build(DESC)
        self.kinds = list(kinds)
        self.cases, self.char = {}, {}
        names = itertools.count()
        for k in kinds:
            t = k.rstrip("2")
            ls = [dict(l, lid=IDS[k], ltype=t) for l in POOL[t]]
            if k.endswith("2"):
                ls = [dict(l, f=l.get("f", 1.0) * 1.25) for l in ls]
            objs = [D.make_load(self.fr, l) for l in ls]
            self.char[k] = ls
            if order == "case":
                lc = LoadCase(load_id=IDS[k], loads=objs)
                self.fr.add(lc)
            else:
                for o in objs:
                    self.fr.add(o)
                lc = self.fr.load_cases[IDS[k]]
            self.cases[k] = (lc, objs)
        self.combs = {}
        self.truth = {}

    def add(self, cid, lim, subset, lead=None):
        from metku.raami.raami import LoadCombination
        c = LoadCombination(comb_id=cid, comb_type=lim, load_cases=[self.cases[k][0] for k in subset])
        if lead is not None:
            c.lead_variable_load = self.cases[lead][0]
        self.fr.add(c)
        self.combs[cid] = [c, lim, subset, lead]
        self.freeze(cid)

    def freeze(self, cid):
        _, lim, subset, lead = self.combs[cid]
        if lead is None:
            lead = next((k for k in subset if not k.startswith("dead")), None)
        self.truth[cid] = [dict(l, lid=cid, f=l.get("f", 1.0) * factor(k.rstrip("2"), lim, k == lead))
                           for k in subset for l in self.char[k]]

    def check(self, ctx, what):
        fr = self.fr
        fr.generate_fem()
        fr.structural_analysis("all", "REM", design=False)
        ledger = [l for k in self.kinds for l in self.char[k]] + [l for c in self.truth.values() for l in c]
        lids = [IDS[k] for k in self.kinds] + list(self.truth)
        want = D.reference(DESC, fr, ledger, lids)
        for lid in lids:
            D.compare(ctx, fr, want[lid], lid, "comb" if lid in self.truth else "characteristic", what, disp=False)
            ctx.state((lid, canon(want[lid][1]["My"], 5)))
        for cid, t in self.truth.items():
            n = sum(l.load_id == cid for l in fr.loads.values())
            ctx.expect(n == len(t), "comb-count", f"{what}: combination {cid} has {n} loads, expected {len(t)}")
            ctx.expect(len(fr.load_cases[cid].loads) == len(t), "comb-case-count", f"{what}: load case of combination {cid} has {len(fr.load_cases[cid].loads)} loads, expected {len(t)}")
        for k in self.kinds:
            for l, o in zip(self.char[k], self.cases[k][1]):
                ctx.eq(o.f, l.get("f", 1.0), "source-changed", f"{what}: factor of a characteristic load in {k}")


def run_table(case, ctx):
    s = Sys(case["kinds"], case["order"])
    s.add(200, case["lim"], case["kinds"], case["lead"])
    s.check(ctx, "first")
    s.combs[200][0].combine_loads()
    s.check(ctx, "combined again")


def table(deep):
    kinds = ["dead", "live", "snow", "wind", "live2", "dead2"]
    for n in (1, 2, 3, 4):
        for ks in itertools.permutations(kinds, n):
            if n == 4 and not deep and not (ks[0] == "dead" or ks[-1] == "dead"):
                continue
            for lead in [None] + [k for k in ks if not k.startswith("dead")]:
                for lim in ("ULS", "SLS"):
                    for order in (("case", "load") if n <= 3 else ("case",)):
                        yield {"kinds": list(ks), "lead": lead, "lim": lim, "order": order}


OPS = ["u1", "u2", "s1", "u3", "r1", "r2", "rs", "lead1", "lead2", "val", "fac", "gen", "newload"]


def run_hist(case, ctx):
    s = Sys(["dead", "live", "snow", "wind"])
    spec = {"u1": (200, "ULS", ["dead", "live", "wind"]), "u2": (201, "ULS", ["wind", "snow", "dead"]),
            "s1": (202, "SLS", ["dead", "snow", "live"]), "u3": (203, "ULS", ["dead"])}
    cid = {"r1": 200, "r2": 201, "rs": 202}
    for op in case:
        if op in spec:
            c, lim, sub = spec[op]
            s.add(c, lim, sub)
        elif op in cid:
            if cid[op] in s.combs:
                s.combs[cid[op]][0].combine_loads()
                s.freeze(cid[op])
        elif op in ("lead1", "lead2"):
            c, k = (200, "wind") if op == "lead1" else (201, "snow")
            if c in s.combs:
                s.combs[c][0].lead_variable_load = s.cases[k][0]
                s.combs[c][3] = k
                s.combs[c][0].combine_loads()
                s.freeze(c)
        elif op == "val":
            import numpy as np
            l, o = s.char["wind"][0], s.cases["wind"][1][0]
            l["q"] = [l["q"][0] + 1, l["q"][1] + 2]
            o.values = np.array(l["q"])
        elif op == "fac":
            l, o = s.char["live"][1], s.cases["live"][1][1]
            l["f"] = l.get("f", 1.0) * 1.5
            o.f = l["f"]
        elif op == "newload":
            l = dict(POOL["dead"][1], lid=IDS["dead"], ltype="dead", f=0.75)
            s.char["dead"].append(l)
            o = D.make_load(s.fr, l)
            s.fr.add(o)
            s.cases["dead"][1].append(o)
        elif op == "gen":
            s.check(ctx, "inside")
    s.check(ctx, "end")


def enabled(w, a):
    if a in ("r1", "lead1"):
        return "u1" in w
    if a in ("r2", "lead2"):
        return "u2" in w
    if a == "rs":
        return "s1" in w
    if a in ("u1", "u2", "s1", "u3"):
        return a not in w
    if a == "gen":
        return bool(w) and w[-1] != "gen"
    return True


def families(tier):
    deep = tier == "thorough"
    d = 5 if deep else 4
    return [Family("table", lambda: table(deep), run_table, "every ordered choice of load cases out of two permanent, two imposed, snow, wind x leading action x limit state x way of adding", "<= 4 load cases"),
            Family("histories", lambda: histories(OPS, d, enabled, 1), run_hist, "all words over adding 4 combinations, combining again, changing the leading action, load values, factors, new loads, analyses", f"depth {d}")]
