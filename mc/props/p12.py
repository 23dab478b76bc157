"""P12: cross-section properties always follow the current dimensions."""
from ..core import Family, histories, product_cases, canon
from ..drv import sections as S

BASE = {
    "RHS": {"H": 200, "B": 120, "T": 8},
    "SHS": {"H": 150, "B": 150, "T": 6},
    "CustomCHS": {"D": 168.3, "T": 6.3},
    "CustomI": {"H": 300, "B": 200, "tf": 14, "tw": 8, "r": 18},
    "WI": {"h": 400, "tw": 8, "bt": 200, "bb": 250, "tt": 12, "tb": 15, "a": 5},
}
OPS = {
    "RHS": [("H", 120), ("H", 257.3), ("B", 80), ("B", 200), ("T", 5), ("T", 6), ("T", 10), ("T", 12.5)],
    "SHS": [("H", 120), ("B", 180), ("T", 10), ("T", 12.5)],
    "CustomCHS": [("D", 139.7), ("D", 219.1), ("T", 4), ("T", 10)],
    "CustomI": [("H", 400), ("B", 150), ("tf", 20), ("tw", 12), ("r", 10)],
    "WI": [("h", 500), ("tw", 12), ("bt", 300), ("bb", 120), ("tt", 30), ("tb", 8), ("b", 180), ("tf", 20), ("hw", 350)],
}
COMMON = [("mat", "S460M"), ("mat", "S700"), ("rot", 1), ("force", -2e5), ("read", 0)]


def apply_model(kind, d, op, st):
    k, v = op
    if k == "mat":
        d["fy"] = v
    elif k == "rot":
        st["rot"] = not st["rot"]
    elif k in ("force", "read"):
        pass
    elif kind == "WI" and k == "b":
        d["bt"] = d["bb"] = v
    elif kind == "WI" and k == "tf":
        d["tt"] = d["tb"] = v
    elif kind == "WI" and k == "hw":
        d["h"] = v + d["tt"] + d["tb"]
    else:
        d[k] = v


def apply_impl(kind, s, op):
    k, v = op
    if k == "mat":
        s.material = v
    elif k == "rot":
        s.rotate = not s.rotate
    elif k == "force":
        s.Ned = v
        s.Med = [1e6, 2e5]
        s.section_class()
        s.section_resistance()
    elif k == "read":
        s.Ned, s.Med = 0.0, [-3e6, 0.0]
        s.section_class(), s.bending_resistance(C=2), s.shear_force_resistance(C=1), s.iy(), s.cost(), repr(s)
    else:
        setattr(s, k, v)
        if kind == "CustomI":
            s.cross_section_properties()


def fresh_equal(ctx, s, kind, d, rot):
    """the same numbers as a new section of these dimensions"""
    n = S.make("RHS" if kind == "SHS" else kind, d)
    n.rotate = rot
    for q in ("A", "Au", "I", "Wel", "Wpl", "Ashear", "It", "Iw", "Iy", "Iz", "Wply", "Wplz", "Wely", "Welz"):
        ctx.eq(getattr(s, q), getattr(n, q), "fresh-" + q, f"{kind} {d}: {q} differs from a new section", 1e-12)


def run_hist(case, ctx):
    kind = case["kind"]
    d = dict(BASE[kind])
    s = S.make(kind, d)
    st = {"rot": False}
    S.compare(ctx, s, kind, d, False, "new")
    for op in case["ops"]:
        op = tuple(op)
        apply_model(kind, d, op, st)
        apply_impl(kind, s, op)
    S.compare(ctx, s, kind, d, st["rot"], f"{kind} after {case['ops']}")
    fresh_equal(ctx, s, kind, d, st["rot"])
    ctx.state((kind, canon(d), st["rot"]))


def hist_cases(tier):
    deep = tier == "thorough"
    for kind in BASE:
        depth = {"RHS": 4, "SHS": 4, "CustomCHS": 4, "CustomI": 4, "WI": 4}[kind] if deep else 3
        for w in histories(OPS[kind] + COMMON, depth):
            yield {"kind": kind, "ops": [list(o) for o in w]}


GRID = {
    "RHS": dict(H=[40, 90, 150, 257.3, 400], B=[40, 80, 200, 300.5], T=[2.5, 5, 6, 6.3, 8, 10, 12.5, 12]),
    "SHS": dict(H=[80, 150, 400], T=[3, 6, 7.1, 10, 12.5]),
    "CHS": dict(D=[33.7, 168.3, 323.9, 711], T=[2.6, 5, 8, 12.5]),
    "CustomCHS": dict(D=[33.7, 168.3, 323.9, 711], T=[2.6, 5, 8, 12.5]),
    "I": dict(H=[96, 200, 450, 1000], B=[100, 180, 300], tf=[8, 15, 40], tw=[5, 9, 21], r=[7, 18, 27]),
    "WI": dict(h=[200, 500, 1500], tw=[6, 10, 20], bt=[100, 250, 500], bb=[100, 300, 500], tt=[8, 20, 40], tb=[10, 25]),
    "WQ": dict(h=[200, 390], tw=[5, 10], bt=[150, 200, 300], bb=[350, 450], tt=[10, 20, 30], tb=[15, 25]),
}
FYS = ["S235", "S355", "S460M", "S700"]


def ok(kind, d):
    if kind == "RHS":
        return min(d["H"], d["B"]) > 2 * S.radius(d["T"])
    if kind == "SHS":
        return d["H"] > 2 * S.radius(d["T"])
    if kind == "I":
        return d["H"] > 2 * (d["tf"] + d["r"]) and d["B"] > d["tw"] + 2 * d["r"]
    if kind == "CHS" or kind == "CustomCHS":
        return d["D"] > 2 * d["T"]
    if kind == "WQ":
        return d["bb"] >= d["bt"] + 2 * d["tw"]
    return True


def grid_cases(tier):
    for kind, ax in GRID.items():
        for k, d in enumerate(product_cases(**ax)):
            if ok(kind, d):
                for fy in (FYS if tier == "thorough" else [FYS[k % 4]]):
                    yield {"kind": kind, "d": dict(d, fy=fy)}


def wq_na_in_web(d):
    # the plastic neutral axis lies beside the top flange or below the bottom flange's top: not covered by the section
    p = S.ref("WQ", d)
    return d["tb"] <= p["zpl"] <= d["tb"] + d["h"] - d["tt"]


def run_grid(case, ctx):
    kind, d = case["kind"], case["d"]
    if kind == "WQ" and not wq_na_in_web(d):
        ctx.undefined += 1
        return
    s = S.make(kind, d)
    p = S.compare(ctx, s, kind, d, False, f"{kind} {d}")
    ctx.state((kind, canon(d)))
    # two sections are independent of each other
    if kind == "WI":
        t = S.make(kind, d)
        t.bt, t.tb = 77, 5
        S.compare(ctx, s, kind, d, False, "other section edited")


def families(tier):
    return [
        Family("dimension-grid", lambda: grid_cases(tier), run_grid, "profile type x dimension grid x steel grade",
               "5 RHS/SHS, CHS, I, WI, WQ grids"),
        Family("edit-histories", lambda: hist_cases(tier), run_hist, "all words of dimension, grade, orientation, force edits and reads",
               "depth 4" if tier == "thorough" else "depth 3"),
    ]
