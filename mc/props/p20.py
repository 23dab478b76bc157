"""P20: strength, stiffness and thermal properties of steel at elevated temperatures (EN 1993-1-2)."""
import itertools
import math
from ..core import Family, canon

TCS = [20, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100, 1200]
CS = {"ky": [1, 1, 1, 1, 1, .78, .47, .23, .11, .06, .04, .02, 0], "kp": [1, 1, .807, .613, .42, .36, .18, .075, .05, .0375, .025, .0125, 0],
      "kE": [1, 1, .9, .8, .7, .6, .31, .13, .09, .0675, .045, .0225, 0], "kp02": [1, 1, .89, .78, .65, .53, .30, .13, .07, .05, .03, .02, 0]}
SS = {"kE": [1, .96, .92, .88, .84, .80, .76, .71, .63, .45, .20, .10, 0], "k02": [1, .82, .68, .64, .60, .54, .49, .40, .27, .14, .06, .03, 0],
      "ku": [1, .87, .77, .73, .72, .67, .58, .43, .27, .15, .07, .03, 0], "ky": [.26, .24, .19, .19, .19, .19, .22, .26, .35, .38, .40, .40, .40],
      "kEct": [.11, .05] + [.02] * 11, "epsU": [.4] * 6 + [.35, .30, .20, .20, .20, .20, .20]}
TB = [20, 100, 150, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1200]
KB = [1, .968, .952, .935, .903, .775, .55, .22, .10, .067, .033, 0, 0]


def lin(xs, ys, x):
    for a, fa, b, fb in zip(xs, ys, xs[1:], ys[1:]):
        if a <= x <= b:
            return fa + (fb - fa) * (x - a) / (b - a)
    raise ValueError(x)


def temps(tier, top=1200):
    t = set()
    for a in sorted(set(TCS) | set(TB) | {735, 750, 860}):
        t |= {a, a - 1e-6, a + 1e-6}
    t |= set(range(20, 1201, 20 if tier == "quick" else 1)) | {float(x) for x in (20, 150, 400, 1000)}
    return sorted(x for x in t if 20 <= x <= top)


# ---------------------------------------------------------------- factors
def factor_cases(tier):
    for t in temps(tier):
        yield {"t": t}


def run_factor(case, ctx):
    from metku.eurocodes.en1993 import en1993_1_2 as F
    from metku.materials import steel_data as sd
    t = case["t"]
    for table, steel, xs in ((CS, "carbon", TCS), (SS, "1.4301", TCS), ({"kb": KB}, "bolts", TB)):
        for p, ys in table.items():
            ctx.eq(float(F.reduce_property(t, p, steel)), lin(xs, ys, t), "factor", f"{case}: {p} of {steel}", 1e-9, 1e-12)
    k = {p: lin(TCS, ys, t) for p, ys in CS.items()}
    for E, f in ((210000.0, 355.0), (200000.0, 235.0), (210000.0, 700.0)):
        ctx.eq([float(v) for v in (F.EaT(t, E), F.fyT(t, f), F.fpT(t, f))], [k["kE"] * E, k["ky"] * f, k["kp"] * f], "carbon", f"{case}: E, fy and fp", 1e-9, 1e-9)
        ctx.eq([float(F.EaT(t, E, "1.4301")), float(F.f02pT(t, f))], [lin(TCS, SS["kE"], t) * E, lin(TCS, SS["k02"], t) * f], "stainless", f"{case}: E and f02 of stainless steel", 1e-9, 1e-9)
        fy = k["ky"] * f
        ctx.eq(float(F.fuT(t, fy)), 1.25 * fy if t < 300 else fy * (2 - 0.0025 * t) if t < 400 else fy, "ultimate", f"{case}: ultimate strength", 1e-9, 1e-9)
        ctx.eq(float(F.fuT(t, f, "1.4301")), lin(TCS, SS["ku"], t) * f, "ultimate", f"{case}: ultimate strength of stainless steel", 1e-9, 1e-9)
    ctx.eq(float(F.kbT(t)), lin(TB, KB, t), "bolts", f"{case}: bolts", 1e-9, 1e-12)
    for g, (fy, fu) in {"S235": (235, 360), "S275": (275, 430), "S355": (355, 510), "S420": (420, 500), "S460M": (460, 540), "S700": (700, 750)}.items():
        s = sd.Steel(g)
        ctx.eq([float(v) for v in (s.fy, s.fu, s.E, s.young, s.Etemp(t), s.fy_temp(t), s.fp_temp(t))], [fy, fu, 210e3, 210e3, k["kE"] * 210e3, k["ky"] * fy, k["kp"] * fy], "grade", f"{case} {g}", 1e-9, 1e-9)
        ctx.eq(float(s.fu_temp(t)), k["ky"] * fy * (1.25 if t < 300 else 2 - 0.0025 * t if t < 400 else 1), "grade", f"{case} {g}: ultimate strength", 1e-9, 1e-9)
    nxt = min(t + 1.0, 1200)
    for p in CS:
        ctx.expect(F.reduce_property(nxt, p) <= F.reduce_property(t, p) + 1e-12, "monotone", f"{case}: {p} increases")
    # thermal properties
    el = 1.2e-5 * t + 0.4e-8 * t * t - 2.416e-4 if t < 750 else 1.1e-2 if t <= 860 else 2e-5 * t - 6.2e-3
    la = 54 - 3.33e-2 * t if t < 800 else 27.3
    ca = 425 + 0.773 * t - 1.69e-3 * t ** 2 + 2.22e-6 * t ** 3 if t < 600 else 666 + 13002 / (738 - t) if t < 735 else 545 + 17820 / (t - 731) if t < 900 else 650
    ctx.eq([F.therm_elongation(t), F.therm_conductivity(t), F.spec_heat(t)], [el, la, ca], "thermal", f"{case}: elongation, conductivity, specific heat", 1e-9, 1e-12)
    ctx.eq([F.therm_elongation_stainless(t), F.therm_conductivity_stainless(t), F.spec_heat_stainless(t)],
           [(16 + 4.79e-3 * t - 1.243e-6 * t * t) * (t - 20) * 1e-6, 14.6 + 1.27e-2 * t, 450 + 0.28 * t - 2.91e-4 * t * t + 1.34e-7 * t ** 3], "thermal-stainless", f"{case}: stainless steel", 1e-9, 1e-12)
    ctx.state(t)


# ---------------------------------------------------------------- stress-strain laws
def law(e, t, E, fy, hard):
    fp, Et, fyt = lin(TCS, CS["kp"], t) * fy, lin(TCS, CS["kE"], t) * E, lin(TCS, CS["ky"], t) * fy
    ep = fp / Et
    fu = fyt * (1.25 if t < 300 else 2 - 0.0025 * t if t < 400 else 1) if hard else fyt
    if e <= ep:
        return Et * e
    if e < 0.02:
        c = (fyt - fp) ** 2 / ((0.02 - ep) * Et - 2 * (fyt - fp))
        a2, b2 = (0.02 - ep) * (0.02 - ep + c / Et), c * (0.02 - ep) * Et + c * c
        return fp - c + math.sqrt(b2 / a2 * (a2 - (0.02 - e) ** 2))
    if e < 0.04 and hard:
        return fyt + (fu - fyt) * (e - 0.02) / 0.02
    if e <= 0.15:
        return fu
    return fu * (1 - (e - 0.15) / 0.05) if e < 0.2 else 0.0


def law_cases(tier):
    for t in temps(tier, 1199):
        for E, f in ((210000.0, 355.0), (210000.0, 235.0), (210000.0, 700.0)):
            for hd in (False, True):
                yield {"t": t, "E": E, "fy": f, "hard": hd}


def run_law(case, ctx):
    from metku.eurocodes.en1993 import en1993_1_2 as F
    from metku.materials import steel_data as sd
    t, E, fy, hd = case["t"], case["E"], case["fy"], case["hard"]
    fp, Et, fyt = lin(TCS, CS["kp"], t) * fy, lin(TCS, CS["kE"], t) * E, lin(TCS, CS["ky"], t) * fy
    ep = fp / Et
    pts = {0.0}
    for b in (ep, 0.02, 0.04, 0.15, 0.2):
        pts |= {b, b * (1 - 1e-9), b * (1 + 1e-9)}
    b = sorted(pts) + [0.25]
    pts |= {u + (v - u) * k / 6 for u, v in zip(b, b[1:]) for k in range(1, 6)}
    prev = None
    st = {e: float(F.stress(e, t, E, fy, hd)) for e in sorted(pts)}
    grade = {235.0: "S235", 355.0: "S355", 700.0: "S700"}[fy]
    for e, s in st.items():
        ctx.eq(s, law(e, t, E, fy, hd), "stress", f"{case}: stress at strain {e}", 1e-6, 1e-6 * fy)
        ctx.eq(float(sd.Steel(grade).stress_temp(e, t, hd)), s, "grade-stress", f"{case}: stress of {grade} at strain {e}", 1e-12, 1e-9)
        ctx.expect(-1e-9 <= s <= fyt * (1.25 if hd else 1.0) + 1e-6, "bounded", f"{case}: stress {s} at strain {e}, yield strength {fyt}")
        if prev is not None and e - prev[0] < 1e-7:
            ctx.expect(abs(s - prev[1]) <= E * (e - prev[0]) * 1.01 + 1e-6 * fy, "continuous", f"{case}: jump from {prev} to {e, s}")
        prev = (e, s)
    ctx.eq(float(F.stress(ep * 1e-3, t, E, fy, hd)) / (ep * 1e-3), Et, "modulus", f"{case}: initial modulus", 1e-9)
    ctx.state((t, fy, hd))


def slaw(e, t, E, fy, fu):
    k = {p: lin(TCS, ys, t) for p, ys in SS.items()}
    f02, fut, Et, Ect, eu = k["k02"] * fy, k["ku"] * fu, k["kE"] * E, k["kEct"] * E, k["epsU"]
    ec = f02 / Et + 0.002
    if e <= ec:
        r = Et * ec / f02
        bb = (1 - ec * Ect / f02) * r / (r - 1)
        return Et * e / (1 + (r - 1) * (e / ec) ** bb)
    q = (fut - f02) ** 2 / ((eu - ec) * Ect - 2 * (fut - f02))
    c2, d2 = (eu - ec) * (eu - ec + q / Ect), q * (eu - ec) * Ect + q * q
    return f02 - q + math.sqrt(d2 / c2 * (c2 - (eu - e) ** 2))


def slaw_cases(tier):
    for t in temps(tier, 1199):
        for prod in ("cold_strip", "hot_strip", "hot_plate", "sections"):
            yield {"t": t, "product": prod}


def run_slaw(case, ctx):
    from metku.eurocodes.en1993 import en1993_1_2 as F
    from metku.materials import steel_data as sd
    fy, fu = {"cold_strip": (230, 540), "hot_strip": (210, 520), "hot_plate": (210, 520), "sections": (190, 500)}[case["product"]]
    s = sd.StainlessSteel("1.4301", case["product"])
    t, E = case["t"], 200000.0
    ctx.eq([s.fy, s.fu, s.E], [fy, fu, E], "stainless-grade", f"{case}: strength", 1e-12)
    eu = lin(TCS, SS["epsU"], t)
    ec = lin(TCS, SS["k02"], t) * fy / (lin(TCS, SS["kE"], t) * E) + 0.002
    if ec * lin(TCS, SS["kEct"], t) * E >= lin(TCS, SS["k02"], t) * fy:
        ctx.undefined += 1  # the curve of the standard has no finite initial slope here (above 1000 degrees)
        return
    pts = [0.0] + [ec * k / 8 for k in range(1, 8)] + [ec * (1 - 1e-9), ec, ec * (1 + 1e-9)] + [ec + (eu - ec) * k / 10 for k in range(1, 11)]
    prev = None
    for e in pts:
        got = float(F.stress_stainless(e, t, s.E, s.fy, s.fu))
        ctx.eq(got, slaw(e, t, E, fy, fu), "stainless-stress", f"{case}: stress at strain {e}", 1e-6, 1e-6 * fy)
        if prev is not None:
            ctx.expect(got >= prev[1] - 1e-6 * fy, "stainless-increasing", f"{case}: stress falls from {prev} to {e, got}")
            if e - prev[0] < 1e-7:
                ctx.expect(abs(got - prev[1]) <= 2e-3 * fy * 1e-3 + E * (e - prev[0]), "stainless-continuous", f"{case}: jump from {prev} to {e, got}")
        prev = (e, got)
    ctx.eq(prev[1], lin(TCS, SS["ku"], t) * fu, "stainless-ultimate", f"{case}: stress at the ultimate strain", 1e-6, 1e-6)
    ctx.eq(float(F.stress_stainless(ec, t, s.E, s.fy, s.fu)), lin(TCS, SS["k02"], t) * fy, "stainless-proof", f"{case}: proof stress", 1e-9, 1e-9)
    ctx.state((t, case["product"]))


# ---------------------------------------------------------------- heating of unprotected members
def heat_cases(tier):
    for fire in ("standard", "hydrocarbon"):
        for kind in ("carbon", "stainless"):
            for amv in (30.0, 60.0, 112.0, 200.0, 350.0):
                for k in (1.0, 0.9, 0.65):
                    for dt in (5, 2):
                        for T0 in (20, 150):
                            yield {"fire": fire, "kind": kind, "amv": amv, "k": k, "dt": dt, "T0": T0, "tmax": 1800 if tier == "quick" else 7200}


def run_heat(case, ctx):
    from metku.eurocodes.en1993 import en1993_1_2 as F
    std = case["fire"] == "standard"
    gas = (lambda m: 20 + 345 * math.log10(8 * m + 1)) if std else (lambda m: 20 + 1080 * (1 - 0.325 * math.exp(-0.167 * m) - 0.675 * math.exp(-2.5 * m)))
    for m in [0, 0.1, 1, 5, 15, 30, 60, 120]:
        ctx.eq((F.standard_fire if std else F.hydrocarbon_fire)(m), gas(m), "fire", f"{case}: gas temperature at {m} min", 1e-9)
    f = F.steel_temp if case["kind"] == "carbon" else F.stainless_steel_temp
    T, tm = f(case["k"], case["amv"], case["tmax"], F.standard_fire if std else F.hydrocarbon_fire, case["dt"], case["T0"])
    ac, em = (25 if std else 50), (0.7 if case["kind"] == "carbon" else 0.4)

    def ca(t):
        if case["kind"] != "carbon":
            return 450 + 0.28 * t - 2.91e-4 * t * t + 1.34e-7 * t ** 3
        return 425 + 0.773 * t - 1.69e-3 * t ** 2 + 2.22e-6 * t ** 3 if t < 600 else 666 + 13002 / (738 - t) if t < 735 else 545 + 17820 / (t - 731) if t < 900 else 650
    n = -(-case["tmax"] // case["dt"])
    ctx.expect(len(T) == len(tm) == n + 1 and T[0] == case["T0"] and tm[0] == 0, "steps", f"{case}: {len(T)} temperatures")
    ref = float(case["T0"])
    for i in range(n):
        g = gas(i * case["dt"] / 60)
        h = ac * (g - ref) + em * 5.67e-8 * ((g + 273) ** 4 - (ref + 273) ** 4)
        ref += case["k"] * case["amv"] / ca(ref) / 7850 * h * case["dt"]
        ctx.eq(float(T[i + 1]), ref, "heating", f"{case}: temperature after {i + 1} steps", 1e-7)
        ctx.eq(float(tm[i + 1]), (i + 1) * case["dt"] / 60, "time", f"{case}: time after {i + 1} steps", 1e-9)
        if len(ctx.fails) > 3:
            return
        ref = float(T[i + 1])
    ctx.state(canon(case))


def families(tier):
    return [
        Family("factors", lambda: factor_cases(tier), run_factor, "temperatures with every table row and branch and both neighbours x all materials", "every 20 degrees (1)"),
        Family("stress", lambda: law_cases(tier), run_law, "temperatures x yield strengths x hardening x strains with every branch and both neighbours", "every 20 degrees (1)"),
        Family("stainless", lambda: slaw_cases(tier), run_slaw, "temperatures x product forms x strains with the branch and both neighbours", "every 20 degrees (1)"),
        Family("heating", lambda: heat_cases(tier), run_heat, "fires x materials x section factors x time steps: every step of the heating history in lockstep", "30 min (120 min)"),
    ]
