"""P18: combinations of actions (EN 1990, Finnish annex) in lockstep with a direct enumeration of leading actions."""
import itertools
from ..core import Family, histories, canon

PSI = {"A": [0.7, 0.5, 0.3], "B": [0.7, 0.5, 0.3], "C": [0.7, 0.7, 0.3], "D": [0.7, 0.7, 0.6], "E": [1.0, 0.9, 0.8]}
KFI = {1: 0.9, 2: 1.0, 3: 1.1}
ACTIONS = [("G", 4.0), ("A", 1.5), ("Q", 2.0), ("Q", 3.5), ("S", 2.0), ("S", 2.75), ("W", 0.8), ("W", 0.0)]
TARGETS = [[("y", [0]), ("x", [1]), ("y", [2, 0]), ("y", [1])], [("y", [3]), ("y", [3]), ("y", [3]), ("y", [3])], [("x", [0]), ("y", [2]), ("x", [2]), ("y", [2, 0, 1])]]


def make_load(kind, value):
    from metku.eurocodes.en1991 import en1991 as E
    return {"G": E.Load, "A": E.AreaLoad, "Q": E.ImposedLoad, "S": E.SnowLoad, "W": E.WindLoad}[kind](value)


class Act:
    """one action of the reference"""

    def __init__(self, kind, value, target, cls, spacing):
        self.kind, self.dir, self.ids = kind, target[0], target[1]
        self.value = value * (1 if kind == "G" else spacing)
        self.psi = PSI[cls] if kind == "Q" else ([0.7, 0.4, 0.2] if value < 2.75 else [0.7, 0.5, 0.2]) if kind == "S" else [0.6, 0.2, 0.0]
        self.perm = kind in "GA"


def combos(acts, rule, kfi):
    """every combination: list of (part, action, factor)"""
    G = [a for a in acts if a.perm]
    Q = [a for a in acts if not a.perm]
    out = []
    if rule == "ULS":
        out.append([("G", a, 1.35 * kfi) for a in G])
        for l in Q:
            out.append([("G", a, 1.15 * kfi) for a in G] + [("Q1", l, 1.5 * kfi)] + [("Qi", a, 1.5 * kfi * a.psi[0]) for a in Q if a is not l])
    elif rule in ("char", "freq", "acc"):
        if not Q or rule == "acc":
            out.append([("G", a, 1.0) for a in G])
        for l in Q:
            f = 1.0 if rule == "char" else l.psi[1] if rule == "freq" or l.kind in "SW" else l.psi[2]
            out.append([("G", a, 1.0) for a in G] + [("Q1", l, f)] + [("Qi", a, a.psi[0 if rule == "char" else 2]) for a in Q if a is not l])
    else:
        out.append([("G", a, 1.0) for a in G] + [("Qi", a, a.psi[2]) for a in Q])
    return out


def total(c):
    return sum(a.value * f for _, a, f in c)


def spread(c, part=None):
    """values by direction and load case of one combination"""
    r = {}
    for p, a, f in c:
        if part in (None, p):
            for i in a.ids:
                r.setdefault(i, {"x": 0.0, "y": 0.0})[a.dir] += a.value * f
    return r


def same(got, want, n):
    """the library reports a list per direction, None where nothing acts, each action rounded to two decimals"""
    for i in range(max([len(got["x"]), len(got["y"])] + [k + 1 for k in want])):
        for d in "xy":
            g = got[d][i] if i < len(got[d]) else None
            if (g is None) != (i not in want):
                return False
            if g is not None and abs(g - want[i][d]) > 0.00501 * n + 1e-9:
                return False
    return True


def governing(acts, rule, kfi):
    cs = combos(acts, rule, kfi)
    top = max(total(c) for c in cs)
    return top, [c for c in cs if total(c) > top - 1e-9 * (1 + abs(top))]


def check(ctx, case, acts, kfi, what, m):
    """m: object with ULS, SLS and Acc combiners"""
    n = len(acts)
    for rule, comb in (("ULS", m.ULS), ("acc", m.Acc)):
        top, cand = governing(acts, rule, kfi)
        got = comb.combine()
        ctx.eq(float(got["value"]), top, "value-" + rule, f"{case} {what}: total of the {rule} combination", 1e-9, 1e-9)
        res = comb.get_result()
        ctx.expect(any(same(res, spread(c), n) for c in cand), "result-" + rule, f"{case} {what}: {rule} {res}, expected {[spread(c) for c in cand]}")
    sls = m.SLS.get_result()
    split = m.SLS.get_result(split_result=True)
    vals = m.SLS.combine()
    for k, rule in enumerate(("char", "freq", "quasi")):
        top, cand = governing(acts, rule, kfi)
        ctx.eq(float(vals[k]["value"]), top, "value-" + rule, f"{case} {what}: total of the {rule} combination", 1e-9, 1e-9)
        ctx.expect(any(same(sls[rule], spread(c), n) for c in cand), "result-" + rule, f"{case} {what}: {rule} {sls[rule]}, expected {[spread(c) for c in cand]}")
        ok = any(all((p in split[rule]) == any(q == p for q, _, _ in c) and (p not in split[rule] or same(split[rule][p], spread(c, p), n)) for p in ("G", "Q1", "Qi")) for c in cand)
        ctx.expect(ok, "split-" + rule, f"{case} {what}: parts of {rule} {split[rule]}, expected {[{p: spread(c, p) for p in ('G', 'Q1', 'Qi')} for c in cand]}")
    ctx.state((what if isinstance(what, str) else "", canon([[a.kind, a.value, a.dir, a.ids] for a in acts]), kfi))


# ---------------------------------------------------------------- all small sets
def set_cases(tier):
    for n in range(1, 6 if tier == "thorough" else 5):
        for w in itertools.combinations_with_replacement(range(len(ACTIONS)), n):
            if all(ACTIONS[i][1] == 0 for i in w):
                continue
            for t in range(len(TARGETS)):
                for cls in PSI:
                    for cc in KFI:
                        for sp in (1, 6.5):
                            if n > 3 and (cc != 1 + (sum(w) + t) % 3 or (sp == 1) != (t == 0)):
                                continue
                            yield {"acts": list(w), "t": t, "cls": cls, "cc": cc, "sp": sp}


def run_set(case, ctx):
    from metku.eurocodes.en1991.en1991 import MultiCombiner
    m = MultiCombiner(case["cls"], case["cc"], case["sp"])
    acts = []
    for k, i in enumerate(case["acts"]):
        tg = TARGETS[case["t"]][k % 4]
        m.add([make_load(*ACTIONS[i]), tg[0], list(tg[1])])
        acts.append(Act(*ACTIONS[i], tg, case["cls"], case["sp"]))
    check(ctx, case, acts, KFI[case["cc"]], "all actions", m)
    if any(a.kind == "Q" for a in acts):
        for L in (4.0, 12.0):
            m2 = MultiCombiner(case["cls"], case["cc"], case["sp"])
            acts2 = []
            for k, i in enumerate(case["acts"]):
                tg = TARGETS[case["t"]][k % 4]
                m2.add([make_load(*ACTIONS[i]), tg[0], list(tg[1])])
                acts2.append(Act(*ACTIONS[i], tg, case["cls"], case["sp"]))
            m2.use_reduction_factor(L)
            reduce(acts2, case["cls"], case["sp"], L)
            check(ctx, case, acts2, KFI[case["cc"]], f"reduced for {L} m", m2)


def reduce(acts, cls, sp, L):
    if cls in "ABCD":
        for a in acts:
            if a.kind == "Q":
                a.value *= min(max(5 / 7 * a.psi[0] + 10 / (sp * L), 0.7), 1.0)


# ---------------------------------------------------------------- histories with shared load objects
HACT = [("G", 4.0), ("A", 1.5), ("Q", 3.0), ("S", 2.75), ("W", 0.8)]


def hist_cases(tier):
    al = [("add", i) for i in range(len(HACT))] + [("both", 2), ("both", 3), ("reduce", 8.0), ("result", 0)]
    for w in histories(al, 5 if tier == "thorough" else 4, lambda w, a: not (a[0] in ("reduce", "result") and (not w or w[-1] == a)), 1):
        if w[-1][0] == "reduce" or not any(a[0] in ("add", "both") for a in w):
            continue
        for cls in ("A", "E") if tier == "thorough" or len(w) < 4 else "C":
            yield {"ops": w, "cls": cls}


def run_hist(case, ctx):
    from metku.eurocodes.en1991.en1991 import MultiCombiner
    shared = [make_load(*a) for a in HACT]
    ms = [MultiCombiner(case["cls"], 3, 5.0), MultiCombiner(case["cls"], 1, 2.0)]
    acts = [[], []]
    spc, ccs = [5.0, 2.0], [3, 1]
    for k, op in enumerate(case["ops"]):
        if op[0] in ("add", "both"):
            tg = TARGETS[0][k % 4]
            for j in (0, 1) if op[0] == "both" else (0,):
                ms[j].add([shared[op[1]], tg[0], list(tg[1])])
                acts[j].append(Act(*HACT[op[1]], tg, case["cls"], spc[j]))
        elif op[0] == "reduce":
            ms[0].use_reduction_factor(op[1])
            reduce(acts[0], case["cls"], spc[0], op[1])
        if op[0] == "result" or k == len(case["ops"]) - 1:
            for j in (0, 1):
                if acts[j]:
                    check(ctx, case, acts[j], KFI[ccs[j]], f"structure {j} after {k + 1} operations", ms[j])
        ctx.expect([l.value for l in shared] == [v for _, v in HACT], "input-changed", f"{case}: the given actions are now {[l.value for l in shared]}")


def families(tier):
    return [
        Family("sets", lambda: set_cases(tier), run_set, "multisets of actions x load cases and directions x category x consequence class x spacing", "up to 4 actions (5)"),
        Family("histories", lambda: hist_cases(tier), run_hist, "words over add (shared load objects, two structures) / reduce / result", "depth 4 (5)"),
    ]
