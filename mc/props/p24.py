"""P24: bolts, welds and the basic components of bolted joints (EN 1993-1-8 chapters 3, 4 and 6)."""
import itertools
import math
from ..core import Family, canon

G0, G1, G2 = 1.0, 1.0, 1.25
SIZES = [12, 16, 20, 24, 30, 36]
# stress area; head height, across flats; nut height, across corners; washer thickness, outer diameter
DATA = {12: (84.3, 7.5, 18, 10.8, 20.03, 2.5, 24.0), 16: (157.0, 10.0, 24, 14.8, 26.75, 3.0, 30.0), 20: (245.0, 12.5, 30, 18.0, 32.95, 3.0, 37.0),
        24: (353.0, 15.0, 36, 21.5, 39.55, 4.0, 44.0), 30: (561.0, 18.7, 46, 25.6, 50.85, 4.0, 56.0), 36: (817.0, 22.5, 55, 31.0, 60.79, 5.0, 66.0)}
CLASSES = {4.6: (240, 400), 4.8: (320, 400), 5.6: (300, 500), 5.8: (400, 500), 6.8: (480, 600), 8.8: (640, 800), 10.9: (900, 1000)}
BRITTLE = {4.8, 5.8, 6.8, 10.9}
GRADES = {"S235": (235, 360, .8), "S275": (275, 430, .85), "S355": (355, 510, .9), "S420": (420, 500, 1.0), "S460M": (460, 540, 1.0),
          "S460Q": (460, 570, 1.0), "S500": (500, 550, 1.0), "S700": (700, 750, 1.0)}


def hole(d):
    return d + (1 if d < 16 else 2 if d < 27 else 3)


def ref_bearing(d, fub, fu, t, e, p, perp, load):
    d0 = hole(d)
    ad = e[0] / (3 * d0) if load == "edge" else p[0] / (3 * d0) - 0.25
    k1 = min(1.4 * p[1] / d0 - 1.7, 2.5)
    if perp == "edge":
        k1 = min(k1, 2.8 * e[1] / d0 - 1.7)
    return k1 * min(ad, fub / fu, 1.0) * fu * d * t / G2


def ref_shear(cls, A, threaded):
    return (0.5 if threaded and cls in BRITTLE else 0.6) * CLASSES[cls][1] * A / G2


def ref_length(d, length, tables):
    part, full = tables
    for tab, kind in ((part, "Partial thread"), (full, "Full thread")):
        ok = sorted(k for k, v in tab.items() if k != "max" and k >= length and v[d] != "N/A")
        if ok:
            return ok[0], kind
    return None


def judge(b, d, cls, length, ctx, key, where):
    from metku.cost.cost_data import bolt_unit_cost_part_thread as pt, bolt_unit_cost_full_thread as ft
    As, hk, hs, nm, ne, wt, wd = DATA[d]
    fyb, fub = CLASSES[cls]
    A = math.pi * d * d / 4
    ctx.eq([b.d, b.size, b.d0, b.A, b.As, b.head_t, b.head_d, b.nut_t, b.nut_e, b.washer_t, b.washer_d, b.dw],
           [d, d, hole(d), A, As, hk, hs, nm, ne, wt, wd, max(wd, hs, ne)], key, f"{where}: dimensions", 1e-9, 1e-9)
    ctx.eq([b.fyb, b.fub], [fyb, fub], key, f"{where}: material", 1e-9, 1e-9)
    got = [b.shear_resistance(), b.shear_resistance(threads_in_plane=True), b.shear_resistance(threads_in_plane=False), b.tension_resistance(), b.tension_resistance(0.63)]
    ctx.eq(got, [ref_shear(cls, As, True)] * 2 + [ref_shear(cls, A, False), 0.9 * fub * As / G2, 0.63 * fub * As / G2], key, f"{where}: shear and tension resistance", 1e-9, 1e-6)
    for f in ((1.2, 1.2, 2.2, 2.4), (1.2, 1.2, 2.2, 2.8), (1.8, 1.4, 3.0, 2.4), (2.0, 1.35, 3.75, 3.0), (4.0, 3.0, 5.0, 2.6), (4.0, 3.0, 5.0, 5.0)):
        e, p = (f[0] * hole(d), f[1] * hole(d)), (f[2] * hole(d), f[3] * hole(d))
        for perp, load in itertools.product(("edge", "inner"), repeat=2):
            ctx.eq(b.bearing_resistance(510.0, 10.0, list(e), list(p), perp, load), ref_bearing(d, fub, 510.0, 10.0, e, p, perp, load), key, f"{where}: bearing e={e} p={p} {perp} {load}", 1e-9, 1e-6)
    lt = ref_length(d, length, (pt, ft))
    if lt is None:
        lt = (length, "Full thread")
    ctx.expect((b.length, b.bolt_type) == lt, key, f"{where}: length and thread {(b.length, b.bolt_type)}, expected {lt}")
    ctx.state((d, cls, canon(b.length), b.bolt_type))


# ---------------------------------------------------------------- bolts
def bolt_cases(tier):
    for cls in CLASSES:
        for length in ([20.0, 22.0, 52.0, 87.0, 301.0] + [float(x) for x in range(25, 401, 15)] + [50.0, 60.0, 150.0, 300.0] if tier == "quick" else [20.0, 22.0] + [float(x) for x in range(25, 401, 5)]):
            yield {"class": cls, "length": length}


def run_bolt(case, ctx):
    from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import Bolt
    for d in SIZES:
        judge(Bolt(d, case["class"], case["length"]), d, case["class"], case["length"], ctx, "bolt", f"{case} M{d}")


def hist_cases(tier):
    for length in ((50.0, 110.0, 310.0) if tier == "quick" else (20.0, 50.0, 75.0, 110.0, 190.0, 260.0, 310.0)):
        for seq in itertools.product(SIZES, repeat=3 if tier == "quick" else 4):
            yield {"length": length, "sizes": list(seq)}


def run_hist(case, ctx):
    from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import Bolt
    cls = list(CLASSES)[sum(case["sizes"]) % 7]
    b = Bolt(case["sizes"][0], cls, case["length"])
    for k, d in enumerate(case["sizes"][1:]):
        ctx.step()
        b.size = d
        judge(b, d, cls, case["length"], ctx, "history", f"{case} after change {k + 1}")


# ---------------------------------------------------------------- free functions
def fun_cases(tier):
    for d in SIZES:
        for cls in CLASSES:
            yield {"d": d, "class": cls}


def run_fun(case, ctx):
    from metku.eurocodes.en1993.en1993_1_8 import en1993_1_8 as J
    d, cls = case["d"], case["class"]
    fub, As, A, d0 = CLASSES[cls][1], DATA[d][0], math.pi * d * d / 4, hole(d)
    for thr, area in ((True, As), (False, A), (True, A), (False, As)):
        ctx.eq(J.bolt_shear_resistance(fub, area, cls, thr), ref_shear(cls, area, thr), "shear", f"{case} threads in the shear plane: {thr}", 1e-9, 1e-6)
    ctx.eq([J.bolt_tension_resistance(fub, As), J.bolt_tension_resistance(fub, As, 0.63)], [0.9 * fub * As / G2, 0.63 * fub * As / G2], "tension", str(case), 1e-9, 1e-6)
    for fu in (360.0, 430.0, 510.0, 750.0):
        for t in (4.0, 10.0, 25.0):
            for f1, f2, g1, g2 in itertools.product((1.2, 2.0, 3.0, 4.0), (1.2, 1.5, 2.5), (2.2, 3.0, 3.75, 6.0), (2.4, 3.0, 5.0)):
                e, p = (f1 * d0, f2 * d0), (g1 * d0, g2 * d0)
                for perp, load in itertools.product(("edge", "inner"), repeat=2):
                    ctx.step()
                    ctx.eq(J.bolt_bearing_resistance(fub, fu, d, t, e, p, d0, perp, load), ref_bearing(d, fub, fu, t, e, p, perp, load), "bearing", f"{case} fu={fu} t={t} e={e} p={p} {perp} {load}", 1e-9, 1e-6)
            dm = 0.5 * (DATA[d][2] + DATA[d][4])
            ctx.eq(J.bolt_punching_shear_resistance(dm, t, fu), 0.6 * math.pi * dm * t * fu / G2, "punching", f"{case} fu={fu} t={t}", 1e-9, 1e-6)
    FvRd, FtRd = ref_shear(cls, As, True), 0.9 * fub * As / G2
    for a, b in itertools.product((0.0, 0.25, 0.5, 1.0), repeat=2):
        ctx.eq(J.shear_and_tension_resistance(a * FvRd, FvRd, b * FtRd, FtRd), a + b / 1.4, "combined", f"{case} {a} {b}", 1e-9, 1e-12)
    ctx.state((d, cls))


# ---------------------------------------------------------------- welds and block tearing
def weld_cases(tier):
    for g in GRADES:
        yield {"grade": g}


def run_weld(case, ctx):
    from metku.eurocodes.en1993.en1993_1_8 import en1993_1_8 as J
    from metku.materials.steel_data import Steel
    g = case["grade"]
    fy, fu, beta = GRADES[g]
    m = Steel(g)
    # throat a of a double-sided fillet weld with sigma_perp = tau_perp = f/(2*sqrt(2)*a): sqrt(sigma^2+3*tau^2) = fu/(beta*gammaM2)
    f = fy / G0
    single = math.sqrt(2) * f * beta * G2 / fu
    ctx.eq([J.full_strength_weld_throat(m), J.full_strength_weld_tube(m)], [single / 2, single], "weld", f"{case}: throat of a full strength weld per plate thickness", 1e-9, 1e-12)
    for Ant, Anv in itertools.product((0.0, 300.0, 1500.0), repeat=2):
        ctx.eq([J.block_tearing(fy, fu, Ant, Anv, True), J.block_tearing(fy, fu, Ant, Anv, False), J.block_tearing(fy, fu, Ant, Anv)],
               [fu * Ant / G2 + fy * Anv / math.sqrt(3) / G0, 0.5 * fu * Ant / G2 + fy * Anv / math.sqrt(3) / G0, fu * Ant / G2 + fy * Anv / math.sqrt(3) / G0], "block", f"{case} {Ant} {Anv}", 1e-9, 1e-6)
    for k in range(0, 31):
        r = k / 30
        ctx.eq([J.stiffness_ratio(r), J.stiffness_ratio(r, 3.1)], [1.0 if r <= 2 / 3 else (1.5 * r) ** 2.7, 1.0 if r <= 2 / 3 else (1.5 * r) ** 3.1], "ratio", f"stiffness ratio at {r}", 1e-9, 1e-12)
    ctx.state(g)


# ---------------------------------------------------------------- components
COLS = [("HEA", 140), ("HEA", 300), ("HEB", 140), ("HEB", 300), ("IPE", 300), ("IPE", 600), ("HEA", 800), ("HEA", 1000)]
BEAMS = [("IPE", 200), ("IPE", 400), ("HEA", 240)]


def omega(beta, b, tw, Av):
    w1, w2 = 1 / math.sqrt(1 + 1.3 * (b * tw / Av) ** 2), 1 / math.sqrt(1 + 5.2 * (b * tw / Av) ** 2)
    if beta <= 0.5:
        return 1.0
    if beta <= 1:
        return w1 + 2 * (1 - beta) * (1 - w1)
    return w1 + (beta - 1) * (w2 - w1)


def comp_cases(tier):
    for c in COLS:
        for b in BEAMS:
            for fy in (235, 355) if tier == "quick" else (235, 275, 355, 420):
                yield {"column": list(c), "beam": list(b), "fy": fy}


def section(kind, h, fy):
    import importlib
    I = importlib.import_module("metku.sections.steel.ISection")
    return getattr(I, kind)(h, fy)


def run_comp(case, ctx):
    from metku.eurocodes.en1993.en1993_1_8 import component_method as cm
    c, b = section(*case["column"], case["fy"]), section(*case["beam"], case["fy"])
    fy, E = float(case["fy"]), 210e3
    h, bf, tf, tw, r = c.h, c.b, c.tf, c.tw, c.r
    A = 2 * bf * tf + (h - 2 * tf) * tw + (4 - math.pi) * r * r
    Av = max(A - 2 * bf * tf + (tw + 2 * r) * tf, h_eta(c) * (h - 2 * tf) * tw)
    d = h - 2 * tf - 2 * r
    ctx.eq(cm.col_web_shear(c), 0.9 * fy * Av / math.sqrt(3) / G0, "panel", f"{case}: column web in shear", 1e-9, 1e-6)
    Ab = 2 * b.b * b.tf + (b.h - 2 * b.tf) * b.tw + (4 - math.pi) * b.r ** 2
    for beta in (0.5, 1.0, 2.0):
        for z in (150.0, 380.0):
            ctx.eq(cm.col_web_shear_k(c, beta, z), 0.38 * Av / beta / z, "stiffness", f"{case}: panel stiffness", 1e-9, 1e-9)
    for beta in [k / 8 for k in range(0, 17)]:
        for leff in (60.0, 150.0, 400.0):
            ctx.step()
            ctx.eq(cm.min_coeff_w(beta, leff, tw, Av), omega(beta, leff, tw, Av), "omega", f"{case}: interaction factor beta={beta} b={leff}", 1e-9, 1e-12)
            ctx.eq(cm.column_web_tension(c, leff, beta), omega(beta, leff, tw, Av) * leff * tw * fy / G0, "web-tension", f"{case}: column web in tension beta={beta} b={leff}", 1e-9, 1e-6)
        for tp, eb, a, s in itertools.product((8.0, 20.0), (5.0, 30.0, 60.0), (4.0, 9.0), (0.0, 0.7, 0.85, 1.0)):
            ctx.step()
            beff = b.tf + 2 * math.sqrt(2) * a + 5 * (tf + r) + min(2 * tp, tp + eb - math.sqrt(2) * a)
            lam = 0.932 * math.sqrt(beff * d * fy / (E * tw * tw))
            rho = 1.0 if lam <= 0.72 else (lam - 0.2) / lam ** 2
            k = 1.0 if s <= 0.7 else 1.7 - s
            F = omega(beta, beff, tw, Av) * k * beff * tw * fy * min(1 / G0, rho / G1)
            got = cm.col_web_trv_comp(c, b, tp, eb, a, beta, s * fy)
            ctx.eq([float(got[0]), float(got[1])], [F, beff], "web-compression", f"{case}: column web in compression beta={beta} tp={tp} overhang={eb} a={a} stress={s} fy", 1e-9, 1e-6)
    for leff, m in itertools.product((60.0, 150.0, 400.0), (20.0, 45.0)):
        ctx.eq([cm.col_web_trv_comp_k(c, leff), cm.column_web_tension_k(c, leff), cm.column_flange_bending_k(c, leff, m), cm.end_plate_bending_k(12.0, leff, m), cm.bolt_row_tension_k(245.0, leff)],
               [0.7 * leff * tw / d, 0.7 * leff * tw / d, 0.9 * leff * tf ** 3 / m ** 3, 0.9 * leff * 12.0 ** 3 / m ** 3, 1.6 * 245.0 / leff], "stiffness", f"{case}: stiffness coefficients", 1e-9, 1e-12)
        ctx.eq([cm.beam_web_tension(b, leff), cm.Tstub_compression_flange(20.0, leff, m)], [leff * b.tw * fy / G0, 20.0 * leff * m], "beam", f"{case}: beam web in tension", 1e-9, 1e-6)
    W = b.Wpl[0] if case["beam"] != ["HEA", 240] or fy < 420 else b.Wel[0]
    if not (case["beam"] == ["HEA", 240] and fy > 300):
        ctx.eq(float(cm.beam_web_compression(b)), W * fy / G0 / (b.h - b.tf), "beam", f"{case}: beam flange in compression", 1e-9, 1e-6)
    ctx.state(tuple(case["column"]) + tuple(case["beam"]))


def h_eta(c):
    return 1.0


# ---------------------------------------------------------------- yield line factor
def alpha_cases(tier):
    for e in (20.0, 30.0, 45.0, 70.0):
        for m in (15.0, 25.0, 40.0, 60.0):
            yield {"e": e, "m": m}


def run_alpha(case, ctx):
    from metku.eurocodes.en1993.en1993_1_8 import component_method as cm
    e, m = case["e"], case["m"]
    prev = None
    for m2 in (8.0, 12.0, 20.0, 35.0, 60.0, 120.0, 400.0):
        ctx.step()
        a = min(max(4 + 1.67 * e / m * (m / m2) ** 0.67, 4 + 1.25 * e / m), 8.0)
        got = cm.new_alpha(e, m, m2)
        ctx.eq(got, a, "alpha", f"{case} m2={m2}", 1e-9, 1e-12)
        ctx.expect(prev is None or got <= prev + 1e-12, "alpha", f"{case}: not decreasing in m2")
        prev = got
    # the chart: for the alpha returned the point lies on its curve
    for al in (4.45, 4.6, 5.0, 5.5, 6.0, 7.0, 7.9):
        l1 = 1.25 / (al - 2.75)
        for f in (0.0, 0.2, 0.5, 0.8):
            l2 = 0.5 * al * l1 * f
            x = l1 + (1 - l1) * ((0.5 * al * l1 - l2) / (0.5 * al * l1)) ** (0.185 * al ** 1.785)
            if x > 0.95:
                continue
            try:
                got = cm.find_alpha(x, l2)
            except Exception:  # the search bracket is outside the chart here
                ctx.undefined += 1
                continue
            ctx.eq(got, al, "chart", f"alpha={al} lambda2={l2}", 1e-6, 1e-6)
    ctx.state((e, m))


def families(tier):
    return [
        Family("bolts", lambda: bolt_cases(tier), run_bolt, "every bolt: size x property class x required length", "6 sizes x 7 classes x 7 (79) lengths, 12 bearing situations each"),
        Family("history", lambda: hist_cases(tier), run_hist, "every history of size changes of one bolt", "3 (7) lengths x all sequences of 3 (4) sizes"),
        Family("rules", lambda: fun_cases(tier), run_fun, "every bolt x plate x spacing", "42 bolts x 12 plates x 144 spacings x 4 positions"),
        Family("welds", lambda: weld_cases(tier), run_weld, "every steel grade", "8 grades; block tearing and stiffness ratio grids"),
        Family("components", lambda: comp_cases(tier), run_comp, "every column x beam x steel x transformation parameter x plate x weld x column stress", "8 columns x 3 beams x 2 (4) grades x 17 x 24 x 4"),
        Family("yield-lines", lambda: alpha_cases(tier), run_alpha, "every bolt position near a flange", "16 x 7 geometries, 28 chart points"),
    ]
