"""P29: fabrication costs of parts, joints and trusses (Haapio 2012) for the current data.

The reference computes every cost from plain numbers and holds no state; the objects of the
library (workshop, cost centres, plates, joints, trusses) live through whole histories.
"""
import importlib
import itertools
import math
from ..core import Family, canon, histories
from . import p22, p23, p26

YEAR = 252 * 8 * 60                      # minutes of work in a year
TOL = 1e-9
WAGE = 19.76 * 1.7 / 60                  # machine work with overheads, euro/min
KWMIN = 0.1 / 60                         # euro per kW and minute
RHO = 7850e-9
PAINT = {"alkyd": [(0.48, 80, 2.8), (0.45, 40, 3.6), (0.45, 40, 3.6)], "epoxy": [(0.50, 60, 4.2), (0.50, 60, 4.2), (0.48, 40, 4.9)],
         "polyurethane": [(0.50, 60, 4.2), (0.50, 60, 5.9)], "acryl": [(0.48, 60, 6.4), (0.48, 60, 6.4), (0.40, 40, 6.4)]}
WIRE = {"S355": 1.66, "S420": 1.66, "S550": 3.5, "S690": 2.34}
SAWN = ["S235", "S355", "S420", "S500", "S550", "S690", "S700"]
# length, width, workers, equipment: investment, resale value, maintenance, life
CENTRES = {"blasting": (40, 10, 1, 200e3, 0, 1000, 20), "cutting": (20, 10, 2, 280e3, 0, 1000, 20), "assembly_welding": (15, 5, 1, 5e3, 0, 0, 10),
           "sawing": (35, 15, 1, 310e3, 0, 1000, 20), "painting": (15, 5, 1, 0, 0, 0, 20)}
CLASS = {"blasting": "BlastingCost", "cutting": "CuttingCost", "assembly_welding": "AssemblingCostWeld", "sawing": "SawingCost", "painting": "PaintingCost"}


def annual(P, i, n):
    return P * i / (1 - (1 + i) ** -n)


def rate(cfg):
    """euro/min of a centre: wages, equipment, its maintenance, real estate, its maintenance"""
    ln, w, men, inv, res, mnt, life = cfg
    A = ln * w
    return men * WAGE + (annual(inv - res, 0.05, life) + mnt + annual(A * (1000 - 12), 0.05, 50) + A * 8.0 * 6.385 * 1.81) / YEAR


def total(cfg, tp, tn, running, consumed, util):
    """tp, tn: productive and other time; running: consumables and energy per productive minute"""
    return (tp + tn) * rate(cfg) / util + tp * running + consumed


def blasting(L, cfg=None, speed=3000, util=1.0):
    return total(cfg or CENTRES["blasting"], L / speed, 0.0, 0.042 * 0.75 + 40 * KWMIN, 0.0, util)


def cutting(t, L, cfg=None, util=1.0):
    if t <= 30:
        v, run = 8.9212 * t * t - 486.87 * t + 8155.8, 0.071 * 0.3 + 40 / 480 + 72 * KWMIN
    else:
        v, run = 658.67 - 4.1939 * t, 0.0063 * 18.4 + (0.025 + 1e-5 * t * t + 0.001 * t + 0.0224) * 4.18
    return total(cfg or CENTRES["cutting"], L / v, 3.0, run, 0.0, util)


def painting(A, paint="alkyd", cfg=None, util=1.0):
    wet = [(d * 1e-3 + 0.01 + 0.3 * d * 1e-3) / s for s, d, _ in PAINT[paint]]        # mm
    return total(cfg or CENTRES["painting"], A * sum(wet) / 9e5, 0.0, 0.0, A * sum(w * p * 1e-6 for w, (_, _, p) in zip(wet, PAINT[paint])), util)


def welding(a, L, kind="fillet", grade="S355", cfg=None, util=1.0):
    if kind == "fillet":
        t, w = L * 1e-3 * (0.4988 * a * a - 0.0005 * a + 0.0021), L * a * a * RHO
    else:
        t, w = L * 1e-3 * (0.249 * a * a + 0.0096 * a - 0.0506), L * a * a / 2 * RHO
    t += 0.5 + 0.5 + 0.27 + 3 * 0.09 + 0.05
    return total(cfg or CENTRES["assembly_welding"], t, 0.0, 6.0 * KWMIN, w * (WIRE[grade] + 0.4 * 3.79), util)


def pick(t, vals):
    return vals[min(max(math.ceil(t / 5.0) - 1, 0), 7)]


def sawing(L, bevels, grade, H, T, AH, AT, cfg=None, util=1.0):
    tn = 2 + 2 * (0.25 + 0.5 + 0.5) + bevels + L / 20e3
    tp = used = 0.0
    for h, t, ah, at in zip(H, T, AH, AT):
        tp += h / 2.0 / pick(t, [120, 100, 90, 80, 70, 60, 50, 40]) + ah / 1800
        used += at / (1800 * 1350 * pick(t, [0.4, 0.45, 0.5, 0.55, 0.6, 0.65, 0.7, 0.8])) * 170    # share of a blade
    return total(cfg or CENTRES["sawing"], tp, tn, 10 * KWMIN, used, util)


REF = {"blasting": blasting, "cutting": cutting, "painting": painting, "assembly_welding": welding, "sawing": sawing}


def plate(P, price=1169.0, paint="alkyd"):
    """cost of a plate by stages"""
    b, h, t = P["b"], P["h"], P["t"]
    add = 0.0 if P["mat"] == "S235" else 35.0
    steps = [(5, 140), (6, 82), (7, 35), (8, 23), (10, 12), (12, 0), (20, 12), (50, 47), (60, 58), (80, 140)]
    thick = 140.0
    for lo, v in steps:
        if t >= lo:
            thick = v
    c = {"material": b * h * t * RHO * (price + add + thick) * 1e-3, "cutting": cutting(t, 2 * (b + h)), "blasting": blasting(max(b, h)),
         "painting": painting(2 * b * h + 2 * (b + h) * t, paint), "drilling": 0.0, "welding": 0.0, "holes": 0.0}
    if P.get("weld"):
        c["welding"] = welding(P["weld"], 2 * (b + h))
    if P.get("holes"):
        c["holes"] = cutting(t, math.pi * sum(P["holes"]))
    return c


def data():
    return importlib.import_module("metku.cost.cost_data")


def bolt_price(d, least):
    """price of the shortest bolt on sale that is long enough: partially threaded ones first"""
    D = data()
    for tab in (D.bolt_unit_cost_part_thread, D.bolt_unit_cost_full_thread):
        for L in sorted(k for k in tab if k != "max"):
            if L >= least and tab[L][d] != "N/A":
                return tab[L][d], L, tab is D.bolt_unit_cost_part_thread
    return None


def W():
    importlib.import_module("metku.framefem.framefem")   # the package wants to be imported in this order
    importlib.import_module("metku.structures.steel.end_plate_joint")
    return importlib.import_module("metku.cost.workshop")


def eq(ctx, got, want, key, what):
    ctx.eq(got, want, key, what, 1e-9, 1e-9)


# ---------------------------------------------------------------- one cost centre
def sizes(tier):
    base = {k: [()] for k in CENTRES}
    for k, c in CENTRES.items():
        base[k] = [c, (c[0] + 7, c[1], c[2], c[3], c[4], c[5], c[6]), (c[0], c[1] + 3, c[2] + 1, c[3], c[4], c[5], c[6])]
        if k != "painting":
            base[k] += [(c[0], c[1], c[2], c[3] + 5e4, c[4] + 2e4, c[5] + 300, c[6])]
    return base


def requests(k, tier):
    th = tier == "thorough"
    if k == "blasting":
        return [(L,) for L in ([1, 250, 6000] + [500 * i for i in range(1, 40)] * th)]
    if k == "cutting":
        return [(t, L) for t in ([4, 8, 12.5, 25, 29.9, 30, 30.1, 40, 60] if not th else [1 + 0.5 * i for i in range(2, 160)]) for L in (10.0, 1200.0, 15000.0)]
    if k == "painting":
        return [(A,) for A in (1.0, 3e4, 2.2e6)]
    if k == "assembly_welding":
        return [(a, L, w) for a in (3, 4, 5.5, 8, 12) for L in (20.0, 250.0, 3000.0) for w in ("fillet", "butt")]
    T = [3, 5, 5.1, 8, 10, 12, 15, 16, 20, 20.5, 25, 30, 31, 35, 36, 50]
    ends = [((120.0,), (t,), (900.0,), (2400.0,)) for t in T] + [((120.0, 80.0), (t, u), (900.0, 1500.0), (2400.0, 3300.0)) for t in T for u in (T if th else T[::5])]
    return [(L, bev, g, *map(list, e)) for e in ends for L, bev, g in ([(3000.0, 0, "S355"), (12000.0, 1, "S235"), (700.0, 2, "S700")] if not th else [(L, b_, g) for L in (700.0, 12000.0) for b_ in (0, 1, 2) for g in SAWN])]


def make(k, cfg, extra):
    kw = dict(length=cfg[0], width=cfg[1], workers=cfg[2])
    if k != "painting":
        kw.update(eq_invest=cfg[3], eq_resale=cfg[4], eq_maint=cfg[5])
    if k in ("sawing", "assembly_welding"):
        kw["eq_year"] = cfg[6]
    kw.update(extra)
    return getattr(W(), CLASS[k])(**kw)


def centre_cases(tier):
    for k in CENTRES:
        extras = {"blasting": [{}, {"speed": 1500}], "painting": [{"paint": p} for p in PAINT], "assembly_welding": [{"steel_grade": g} for g in WIRE]}.get(k, [{}])
        for ci, cfg in enumerate(sizes(tier)[k]):
            for ex in extras:
                for u in (1.0, 0.6):
                    yield {"centre": k, "cfg": list(cfg), "extra": ex, "util": u, "tier": tier}


def run_centre(c, ctx):
    k = c["centre"]
    names = {"speed": "speed", "paint": "paint", "steel_grade": "grade"}
    ex = {names[a]: b for a, b in c["extra"].items()}
    fresh = make(k, c["cfg"], c["extra"])
    eq(ctx, float(sum(fresh.costs.values())), rate(c["cfg"]), "rate", f"{k} {c['cfg']}: cost of a minute")
    for r in requests(k, c["tier"]):
        ctx.step()
        o = make(k, c["cfg"], c["extra"])
        o.utility = c["util"]
        got = float(o.cost(*r))
        want = REF[k](*r, cfg=c["cfg"], util=c["util"], **ex)
        eq(ctx, got, want, k, f"{k} {c['cfg']} {c['extra']} utilization {c['util']}: cost{tuple(r)}")
        eq(ctx, float(o.cost(*r)), want, k + "-again", f"{k}: the same request again {tuple(r)}")
        ctx.state((k, round(want, 12)))


# ---------------------------------------------------------------- one workshop, many requests
REQ = [("cutting", (8, 1200.0)), ("cutting", (45, 300.0)), ("assembly_welding", (5, 400.0)), ("assembly_welding", (9, 150.0, "butt")), ("sawing", (3000.0, 0, "S355", [90.0, 90.0], [6.0, 6.0], [700.0, 700.0], [2100.0, 2100.0])),
       ("sawing", (8000.0, 2, "S420", [120.0], [22.0], [1700.0], [5100.0])), ("blasting", (4000.0,)), ("painting", (5e5,)),
       ("set", ("painting", "paint", "epoxy")), ("set", ("blasting", "vc", 2000)), ("set", ("sawing", "utility", 0.5)), ("set", ("cutting", "nothing", 0)), ("plate", 0), ("plate", 1)]


def hist_cases(tier):
    return histories(REQ, 4 if tier == "thorough" else 3)


def run_hist(seq, ctx):
    ws = W().Workshop()
    PL = importlib.import_module("metku.structures.steel.plates")
    P = [{"b": 200.0, "h": 340.0, "t": 12.0, "mat": "S355", "weld": 5.0, "holes": [22.0, 18.0]}, {"b": 90.0, "h": 60.0, "t": 6.0, "mat": "S235"}]
    opt = {k: {} for k in CENTRES}
    for what, a in seq:
        ctx.step()
        if what == "set":
            k, name, v = a
            if name == "nothing":
                continue
            setattr(ws.cost_centres[k], name, v)
            opt[k][{"vc": "speed", "paint": "paint", "utility": "util"}[name]] = v
        elif what == "plate":
            if opt["blasting"] or opt["painting"]:
                ctx.undefined += 1
                continue
            d = P[a]
            p = PL.RectPlate(d["b"], d["h"], d["t"], d["mat"])
            p.weld_size, p.holes = d.get("weld", 0.0), list(d.get("holes", []))
            eq(ctx, float(p.cost(ws)), sum(plate(d).values()), "plate", f"{seq}: plate {d}")
        else:
            got = float(ws.cost_centres[what].cost(*a))
            eq(ctx, got, REF[what](*a, **opt[what]), "request", f"{seq}: {what}{a}")
    ctx.state(canon([sorted(map(str, opt.items()))]))


# ---------------------------------------------------------------- plates
PE = [("b", 150.0), ("h", 500.0), ("t", 5.0), ("t", 32.0), ("weld", 6.0), ("weld", 0.0), ("holes", [22.0, 22.0]), ("holes", [30.0]), ("holes", []), ("mat", "S235")]


def plate_cases(tier):
    for h in histories(PE, 4 if tier == "thorough" else 3):
        yield {"edits": [list(e) for e in h]}
    for t in [4, 4.9, 5, 5.9, 6, 6.5, 7, 7.9, 8, 9.9, 10, 11.9, 12, 14.9, 15, 19.9, 20, 29, 30, 31, 39.9, 40, 49.9, 50, 59, 60, 79.9, 80, 100]:
        for m in ("S235", "S275", "S355", "S420"):
            for dims in ((100.0, 100.0), (60.0, 250.0), (400.0, 90.0)):
                for w, holes in ((0.0, []), (4.0, [18.0] * 4)):
                    yield {"start": [*dims, t, m, w, holes], "edits": []}
    for n1, n2 in itertools.product((1, 2, 3), (1, 2)):
        for d0 in (18.0, 22.0):
            yield {"pattern": [n1, n2, d0], "edits": [["n1", 4], ["d0", 26.0], ["n2", 1], ["t", 8.0]]}


def run_plate(c, ctx):
    W()
    PL = importlib.import_module("metku.structures.steel.plates")
    from metku.materials.steel_data import Steel
    ws = W().Workshop()
    if "pattern" in c:
        n1, n2, d0 = c["pattern"]
        S = {"b": 180.0, "h": 300.0, "t": 10.0, "mat": "S355", "weld": 0.0}
        p = PL.RectPlateWithHoles(S["b"], S["h"], S["t"], d0, [50.0, 50.0], 60.0, 70.0, n1, n2, S["mat"])
    else:
        b, h, t, mat, w, holes = c.get("start", [240.0, 300.0, 15.0, "S355", 0.0, []])
        S = {"b": b, "h": h, "t": t, "mat": mat, "weld": w, "holes": list(holes)}
        p = PL.RectPlate(b, h, t, mat)
        p.weld_size, p.holes = w, list(holes)

    def judge(where):
        if "pattern" in c:
            S["holes"] = [d0] * (n1 * n2)
        for price in (None, 1500.0):
            want = plate(S) if price is None else plate(S, price)
            got = float(p.cost(ws)) if price is None else float(p.cost(ws, price))
            ctx.step()
            eq(ctx, got, sum(want.values()), "plate", f"{where}: {S}")
            eq(ctx, [float(p._cost.get(k, 0.0)) for k in sorted(want)], [want[k] for k in sorted(want)], "stages", f"{where}: {S}: stages {sorted(want)}")
    judge(f"{c} created")
    for i, (k, v) in enumerate(c["edits"]):
        if k == "weld":
            S["weld"] = p.weld_size = v
        elif k == "holes":
            S["holes"], p.holes = list(v), list(v)
        elif k == "mat":
            S["mat"], p.material = v, Steel(v)
        elif k in ("n1", "n2", "d0"):
            setattr(p, k, v)
            n1, n2, d0 = p.n1, p.n2, p.d0
        else:
            S[k] = v
            setattr(p, k, v)
        judge(f"{c} after edit {i + 1}")
    ctx.state(canon(sorted(map(str, S.items()))))


# ---------------------------------------------------------------- bolted joints
EPE = [("tp", 8.0), ("tp", 32.0), ("bp", 1.15), ("etop", 10.0), ("ebot", 60.0), ("d", 16), ("d", 24), ("d", 30), ("af", 9.0), ("aw", 3.0), ("beam", ("IPE", 360, 355)), ("col", ("HEA", 240, 355)), ("mat", "S235"), ("bottom", 12.0), ("remove", 0)]


def ep_cases(tier):
    th = tier == "thorough"
    cfgs = [dict(col=col, beam=("IPE", 300, 235), mat="S355", cls=8.8, d=d, tp=tp, rows=rows, extended=ext, wider=0.0, gauge=0.25)
            for col in (("HEB", 200, 355),) + ((("HEA", 260, 235),) if th else ()) for d in (12, 20, 24) for tp in (12.0, 35.0) for rows in (1, 2, 3, 4) for ext in (True, False)]
    for cfg in cfgs:
        yield {"cfg": cfg, "edits": []}
    for cfg in cfgs:
        if cfg["rows"] != 2 or not cfg["extended"] or cfg["tp"] != 12.0 or (not th and cfg["d"] != 20):
            continue
        for h in histories(EPE, 3 if th and cfg["d"] == 20 and cfg["col"][0] == "HEB" else 2):
            if h:
                yield {"cfg": cfg, "edits": [list(e) for e in h]}


def epp(S, ws_price=1169.0):
    """end plate joint by stages"""
    b, c = S["beam"], S["col"]
    P = {"b": S["bp"], "h": S["etop"] + S["ebot"] + b["h"], "t": S["tp"], "mat": S["mat"]}
    q = {"plate": sum(plate(P, ws_price).values())}
    D = data()
    bp = bolt_price(S["d"], 60.0)
    if bp is None:
        return None
    n = 2 * len(S["z"])
    d = S["d"]
    q["bolts"] = n * (bp[0] + D.nut_unit_cost[d] + 2 * D.washer_unit_cost[d])
    q["holes"] = cutting(S["tp"], n * math.pi * p26.hole(d)) + cutting(c["tf"], n * math.pi * p26.hole(d))
    fl = 2 * (b["b"] + b["tf"]) - 2 * b["r"] - b["tw"] + math.pi * b["r"]
    q["welding"] = welding(S["af"], 2 * fl) + welding(S["aw"], 2 * (b["h"] - 2 * b["tf"] - 2 * b["r"]))
    return q


def run_ep(c, ctx):
    W()
    cfg = dict(c["cfg"], col=tuple(c["cfg"]["col"]), beam=tuple(c["cfg"]["beam"]))
    S = p26.base_state(cfg)
    try:
        p26.Oracle(S)
    except p26.Undefined:
        pass                            # prices do not need an admissible layout of the bolts
    j = p26.build(S)
    j.workshop = W().Workshop()

    def judge(where):
        want = epp(S)
        if want is None:
            ctx.undefined += 1
            return
        ctx.step()
        got = float(j.cost())
        st = 0.0
        for s in ("bottom", "top"):
            pl = j.stiffeners[f"col_{s}_flange"]
            if S[s]:
                st += sum(plate({"b": float(pl.b), "h": float(pl.h), "t": S[s], "mat": repr(pl.material), "weld": float(pl.weld_size)}).values())
        eq(ctx, [float(j._cost[k]) for k in sorted(want)], [want[k] for k in sorted(want)], "joint-stages", f"{where}: {sorted(want)}")
        eq(ctx, got, sum(want.values()) + st, "joint", f"{where}: total")
        eq(ctx, float(j.cost()), got, "joint-again", f"{where}: the same request again")
    judge(f"{c} created")
    for i, (k, v) in enumerate(c["edits"]):
        if k == "remove":
            for s in ("bottom", "top"):
                j.stiffeners[f"col_{s}_flange"] = None
                S[s] = 0.0
        else:
            try:
                S = p26.apply(S, j, k, tuple(v) if isinstance(v, list) else v)
            except p26.Undefined:
                ctx.undefined += 1
                return
        judge(f"{c} after edit {i + 1}")
    ctx.state(canon([S["tp"], S["bp"], S["d"], S["af"], S["aw"], S["mat"]]))


FPE = [("tp", 8.0), ("hp", 260.0), ("bp", 140.0), ("p1", 60.0), ("bolt.size", 16), ("bolt.size", 24), ("bolt", 30), ("weld", 4.0), ("beam", ("IPE", 400, 355)), ("n1", 4)]


def fp_cases(tier):
    for n1, n2, d, L in itertools.product((2, 3), (1, 2), (12, 16, 20, 24, 30), (40.0, 60.0, 100.0)):
        yield {"n": [n1, n2], "d": d, "L": L, "edits": []}
    for n2, d in itertools.product((1, 2), (12, 20)):
        for L in (30.0, 50.0):
            for h in histories(FPE, 3 if tier == "thorough" else 2):
                if h:
                    yield {"n": [3, n2], "d": d, "L": L, "edits": [list(e) for e in h]}


def run_fp(c, ctx):
    W()
    FPJ = importlib.import_module("metku.structures.steel.fin_plate_joint")
    PL = importlib.import_module("metku.structures.steel.plates")
    J = importlib.import_module("metku.eurocodes.en1993.en1993_1_8.en1993_1_8")
    D = data()
    n1, n2 = c["n"]
    beam = ("IPE", 300, 235)
    S = {"d": c["d"], "b": 110.0, "h": 230.0, "t": 10.0, "mat": "S275", "weldj": 5.0, "beam": p26.dims(*beam), "L": c["L"]}
    p = PL.RectPlateWithHoles(S["b"], S["h"], S["t"], p26.hole(S["d"]), [60.0, 45.0], 60.0, 70.0, n1, n2, "S275")
    j = FPJ.FinPlateJoint(p26.section(*beam), p, bolt=J.Bolt(S["d"], 8.8, S["L"]), gh=10.0)
    j.workshop = W().Workshop()

    def judge(where):
        n = n1 * n2
        bp = bolt_price(S["d"], S["L"])
        if bp is None:
            ctx.undefined += 1
            return
        ctx.step()
        d0 = p26.hole(S["d"])
        want = {"plate": sum(plate(dict(S, holes=[d0] * n)).values()), "bolts": n * (bp[0] + D.nut_unit_cost[S["d"]] + D.washer_unit_cost[S["d"]]),
                "beam holes": cutting(S["beam"]["tw"], n * math.pi * d0), "welding": welding(S["weldj"], 2 * S["h"])}
        got = float(j.cost())
        eq(ctx, [float(j._cost[k]) for k in sorted(want)], [want[k] for k in sorted(want)], "fin-stages", f"{where}: {sorted(want)}")
        eq(ctx, got, sum(want.values()), "fin", f"{where}: total")
        eq(ctx, float(j.cost()), got, "fin-again", f"{where}: the same request again")
    judge(f"{c} created")
    for i, (k, v) in enumerate(c["edits"]):
        if k in ("tp", "hp", "bp"):
            S[{"tp": "t", "hp": "h", "bp": "b"}[k]] = v
            setattr(j, k, v)
        elif k == "p1":
            j.p1 = v
        elif k == "bolt.size":
            S["d"] = j.bolt.size = v
        elif k == "bolt":
            S["d"], S["L"] = v, 90.0
            j.bolt = J.Bolt(v, 8.8, 90.0)
        elif k == "weld":
            S["weldj"] = j.weld_size = v
        elif k == "n1":
            n1 = j.plate.n1 = v
        else:
            j.beam = p26.section(*v)
            S["beam"] = p26.dims(*v)
        judge(f"{c} after edit {i + 1}")
    ctx.state(canon([S["d"], S["t"], S["h"], S["b"], S["weldj"], n1]))


# ---------------------------------------------------------------- trusses
FU = {"S235": (235.0, 360.0, 0.8), "S355": (355.0, 510.0, 0.9), "S420": (420.0, 500.0, 1.0)}
TE = [("top_chord_profile", [180.0, 180.0, 8.0]), ("bottom_chord_profile", [140.0, 140.0, 10.0]), ("brace", [100.0, 60.0, 5.0]), ("one", [120.0, 120.0, 8.0]), ("dy", -300.0), ("dy", 150.0), ("grade", "S420"), ("bgrade", "S420"),
      ("fem", "no_eccentricity"), ("fem", "ecc_elements"), ("paint", "epoxy")]


def truss_cases(tier):
    th = tier == "thorough"
    for topo, ndiv, up, edge, (dx1, dx2), sz, (L1, L2), (h1, h2) in itertools.product(("K", "N", "KT"), (2, 3, 4) if th else (2, 3), (False, True), (True, False), ((0, 0), (800.0, 1300.0)), p22.SIZES[:4] if th else p22.SIZES[:2], ((9000.0, 12000.0), (8000.0, 8000.0)), ((1200.0, 1700.0), (1500.0, 1500.0))):
        if dx1 and (up or not edge):
            continue
        c = dict(topo=topo, ndiv=ndiv, up=up, edge=edge, dx1=dx1, dx2=dx2, L1=L1, L2=L2, h1=h1, h2=h2, **sz)
        yield {"truss": c, "edits": []}
    for topo in ("K", "N", "KT"):
        c = dict(topo=topo, ndiv=2, up=False, edge=True, dx1=800.0, dx2=800.0, L1=8000.0, L2=8000.0, h1=1200.0, h2=1700.0, **p22.SIZES[0])
        for h in histories(TE, 3 if th else 2):
            if h:
                yield {"truss": c, "edits": [list(e) for e in h]}


def radius(T):
    return 2 * T if T <= 6 else 2.5 * T if T <= 10 else 3 * T


def chord_angle(c, M, k, b):
    """angle between a brace and the chord on its side, from the joints of the truss"""
    P = M.P
    far = [e for e in M.braces[b][:2] if e != k][0]
    ux, uy = P[far][0] - P[k][0], P[far][1] - P[k][1]
    left, right = M.chords(k)
    v = (right or left) if ux > 0 else (left or right)
    if left and right and abs(ux) < 1e-6 and abs(left[0] * right[1] - left[1] * right[0]) > 1e-6:
        return None                     # vertical at a kink: either chord
    return math.asin(min(1.0, abs(ux * v[1] - uy * v[0]) / math.hypot(ux, uy)))


def run_truss(c, ctx):
    Q = importlib.import_module("metku.sections.steel.RHS")
    k = dict(c["truss"])
    t = p22.truss(k)
    t.workshop = W().Workshop()
    t.generate_supports()
    t.generate_joints()
    dims = {}
    S = {"T": list(k["top"]), "B": list(k["bottom"])}
    for i, m in enumerate(t.braces.values()):
        dims[id(m)] = list(k["brace"])
    grade = {"T": "S355", "B": "S355", "W": "S355"}
    paint = "alkyd"

    def judge(where):
        M = p22.Model(k, t)

        def member(P, Q_, d, saw=None):
            H, B, T = d
            L = math.hypot(P[0] - Q_[0], P[1] - Q_[1])
            R = radius(T)
            A = p23.section(H, B, T, 355)[0]
            q = {"material": A * L * RHO, "blasting": blasting(L), "painting": painting(L * (2 * (H + B) - 8 * R + 2 * math.pi * R), paint)}
            if saw:
                q["sawing"] = sawing(L, 0, saw, [B, B], [T, T], [2 * H * T] * 2, [A, A])
            return q
        want = []
        for s in "TB":
            for i in range(M.n[s] - 1):
                want.append((t.top_chord if s == "T" else t.bottom_chord)[i:i + 1] + [member(M.P[(s, i)], M.P[(s, i + 1)], S[s])])
        for a, b, m in M.braces:
            want.append([m, member(M.P[a], M.P[b], dims[id(m)], grade["W"])])
        got = float(t.cost())
        ctx.step()
        tot = {"material": 0.0, "blasting": 0.0, "painting": 0.0, "welding": 0.0, "sawing": 0.0}
        for m, q in want:
            keys = sorted(q)
            ctx.eq([float(m.costs[x]) for x in keys], [q[x] for x in keys], "member", f"{where}: member {m.mem_id}: {keys}", 1e-6, 1e-6)
            for x in keys:
                tot[x] += q[x]
        fy, fu, beta = FU[grade["W"]]
        for j in t.joints.values():
            kk = M.ids[id(j.node)]
            w, known = 0.0, True
            for b in M.at[kk]:
                H, B, T = dims[id(M.braces[b][2])]
                th = chord_angle(k, M, kk, b)
                if th is None:
                    known = False
                    continue
                R = radius(T)
                a = 2 * beta / math.sqrt(2) * 1.25 * fy / fu * T
                w += welding(a, 2 * (H / math.sin(th) + B) - 8 * R + 2 * math.pi * R)
            if known:
                ctx.eq(float(j.costs["welding"]), w, "welds", f"{where}: welds of joint {kk}", 1e-6, 1e-6)
            else:
                w = float(j.costs["welding"])
            tot["welding"] += w
        ctx.eq([float(t.costs[x]) for x in sorted(tot)], [tot[x] for x in sorted(tot)], "truss-stages", f"{where}: {sorted(tot)}", 1e-6, 1e-6)
        ctx.eq(got, sum(tot.values()), "truss", f"{where}: total cost", 1e-6, 1e-6)
        ctx.eq(float(t.cost()), got, "truss-again", f"{where}: the same request again", 1e-9, 1e-9)
    judge(f"{c} created")
    for i, (e, v) in enumerate(c["edits"]):
        if e.endswith("profile"):
            s = "T" if e[0] == "t" else "B"
            S[s] = v
            setattr(t, e, Q.RHS(*v))
            if grade[s] != "S355":
                (t.top_chord if s == "T" else t.bottom_chord)[0].cross_section.material = 420
        elif e in ("brace", "one"):
            for n, m in enumerate(t.braces.values()):
                if e == "brace" or n == 1:
                    dims[id(m)] = v
                    m.cross_section = Q.RHS(*v)
                    if grade["W"] != "S355":
                        m.cross_section.material = 420
        elif e == "dy":
            t.bottom_chord_dy(v)
        elif e == "grade":
            for m in t.top_chord + t.bottom_chord:
                m.cross_section.material = 420
            grade["T"] = grade["B"] = v
        elif e == "bgrade":
            for m in t.braces.values():
                m.cross_section.material = 420
            grade["W"] = v
        elif e == "paint":
            t.workshop.cost_centres["painting"].paint = paint = v
        else:
            t.clear_fem()
            t.generate_fem(v)
        judge(f"{c} after edit {i + 1}")
    ctx.state(canon([sorted(map(str, S.items())), sorted(map(str, dims.values())), paint, [round(float(n.y), 3) for n in t.bottom_nodes]]))


def families(tier):
    return [
        Family("centres", lambda: centre_cases(tier), run_centre, "every cost centre x its data x every request", "5 x 3-4 x 1-4 x 2 x 3-900 (3500)"),
        Family("histories", lambda: hist_cases(tier), run_hist, "all sequences of requests and changes of one workshop", "14 letters, depth 3 (4)"),
        Family("plates", lambda: plate_cases(tier), run_plate, "plates: thickness x grade x size x holes x welds, and all sequences of edits", "28 x 4 x 3 x 2; 10 letters, depth 3 (4)"),
        Family("endplates", lambda: ep_cases(tier), run_ep, "end plate joints x all sequences of edits", "24 (48); 15 letters, depth 2 (3)"),
        Family("finplates", lambda: fp_cases(tier), run_fp, "fin plate joints x all sequences of edits", "60; 10 letters, depth 2 (3)"),
        Family("trusses", lambda: truss_cases(tier), run_truss, "trusses: topology x divisions x ends x heights x profiles, and all sequences of edits", "240 (720); 3 trusses x 11 letters, depth 2 (3)"),
    ]
