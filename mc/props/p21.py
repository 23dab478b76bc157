"""P21  Plate buckling rules of EN 1993-1-5 and effective welded I-sections."""
import itertools
import math

from mc.core import Family, histories

PROPERTY = "P21"
E0, G1 = 210000.0, 1.0
NUDGE = (0.0, -1e-6, 1e-6)


# ---------------------------------------------------------------- reference
def k_int(p):
    if p >= 1:
        return 4.0
    if p > 0:
        return 8.2 / (1.05 + p)
    if p == 0:
        return 7.81
    if p > -1:
        return 7.81 - 6.29 * p + 9.78 * p * p
    if p == -1:
        return 23.9
    return 5.98 * (1 - p) ** 2


def k_out(p, where):
    if where == "tip":
        return {1.0: 0.43, 0.0: 0.57, -1.0: 0.85}.get(p, 0.57 - 0.21 * p + 0.07 * p * p)
    if p == 1:
        return 0.43
    if p > 0:
        return 0.578 / (p + 0.34)
    if p == 0:
        return 1.7
    if p > -1:
        return 1.7 - 5 * p + 17.1 * p * p
    return 23.8


def rho_int(lp, p):
    if lp <= 0.5 + math.sqrt(0.085 - 0.055 * p):
        return 1.0
    return min(1.0, (lp - 0.055 * (3 + p)) / lp ** 2)


def rho_out(lp):
    return 1.0 if lp <= 0.748 else min(1.0, (lp - 0.188) / lp ** 2)


def widths(b, p, rho):
    if p >= 1 - 1e-6:
        return rho * b, (0.5 * rho * b, 0.5 * rho * b)
    if p > 0:
        e1 = 2 / (5 - p) * rho * b
        return rho * b, (e1, rho * b - e1)
    bc = b / (1 - p)
    return rho * bc, (0.4 * rho * bc, 0.6 * rho * bc)


def chi_w(lam, eta, rigid):
    if lam < 0.83 / eta:
        return eta
    if lam < 1.08 or not rigid:
        return 0.83 / lam
    return 1.37 / (0.7 + lam)


def k_tau(hw, a):
    r = a / hw
    return 5.34 + 4 / r ** 2 if r >= 1 else 4 + 5.34 / r ** 2


def transverse(fyw, hw, tw, fyf, bf, tf, ss, a, lt, c):
    inv = 0.0 if a == 0 else (hw / a) ** 2
    ss = min(ss, hw)
    kF = {"a": 6 + 2 * inv, "b": 3.5 + 2 * inv, "c": min(6.0, 2 + 6 * (ss + c) / hw)}[lt]
    Fcr = 0.9 * kF * E0 * tw ** 3 / hw
    m1 = fyf * bf / (fyw * tw)

    def ly(m2):
        if lt in "ab":
            v = ss + 2 * tf * (1 + math.sqrt(m1 + m2))
            return v if a == 0 else min(v, a)
        le = min(kF * E0 * tw ** 2 / (2 * fyw * hw), ss + c)
        return min(le + tf * math.sqrt(m1 / 2 + (le / tf) ** 2 + m2), le + tf * math.sqrt(m1 + m2))
    L = ly(0.0)
    lam = math.sqrt(L * tw * fyw / Fcr)
    if lam > 0.5:
        L = ly(0.02 * (hw / tf) ** 2)
        lam = math.sqrt(L * tw * fyw / Fcr)
    return fyw * min(1.0, 0.5 / lam) * L * tw / G1


def eps(fy):
    return math.sqrt(235 / fy)


# ---------------------------------------------------------------- functions
def fn_cases(tier):
    n = 40 if tier == "quick" else 400
    ps = sorted({round(1 - 4 * k / n, 9) for k in range(n + 1)} | {b + d for b in (1.0, 0.0, -1.0, -3.0) for d in (1e-4, -1e-4) if -3 <= b + d <= 1} | {1.0, 0.0, -1.0, -3.0})
    for p in ps:
        yield {"psi": p}


def run_fn(case, ctx):
    from metku.eurocodes.en1993 import en1993_1_5 as F
    p = case["psi"]
    ctx.eq(F.buckling_factor_internal(p), k_int(p), "k-internal", f"{case}: buckling factor of an internal part", 1e-9)
    if p >= -1:
        ctx.eq(F.buckling_factor_outstand(p, "support"), k_out(p, "support"), "k-outstand-support", f"{case}: buckling factor of an outstand part", 1e-9)
    ctx.eq(F.buckling_factor_outstand(p, "tip"), k_out(p, "tip"), "k-outstand-tip", f"{case}: buckling factor of an outstand part", 1e-9)
    for b, t, fy in itertools.product((50.0, 100.0, 300.0, 900.0), (4.0, 6.0, 15.0), (235.0, 355.0, 460.0, 700.0)):
        k = k_int(p)
        lp = b / t / (28.4 * eps(fy) * math.sqrt(k))
        ctx.eq(F.lambda_p(b, t, eps(fy), k), lp, "slenderness", f"{case} {b, t, fy}: slenderness", 1e-9)
        lim = 0.5 + math.sqrt(0.085 - 0.055 * p)
        prev = None
        for l in sorted({lp, lim, lim * (1 - 1e-7), lim * (1 + 1e-7), 0.673, 0.748, 0.748 * (1 + 1e-7), 0.1, 1.0, 2.0, 3.5}):
            r = F.reduction_factor_internal(l, p)
            ctx.eq(r, rho_int(l, p), "rho-internal", f"{case}: reduction factor at {l}", 1e-9)
            if prev:
                ctx.expect(r <= prev + 1e-12, "rho-monotone", f"{case}: reduction factor increases to {r} at {l}")
            prev = r
            ctx.eq(F.reduction_factor_outstand(l), rho_out(l), "rho-outstand", f"{case}: reduction factor (outstand) at {l}", 1e-9)
            be, e = F.effective_width_internal(b, p, r)
            w, ref = widths(b, p, r)
            ctx.eq([be] + list(e), [w] + list(ref), "widths-internal", f"{case} b={b} rho={r}: effective widths", 1e-9)
            ctx.eq(F.effective_width_outstand(b, p, r), r * b / (1 - p) if p < 0 else r * b, "widths-outstand", f"{case} b={b} rho={r}: effective width", 1e-9)
    ctx.state(round(p, 6))


def sh_cases(tier):
    n = 60 if tier == "quick" else 600
    for fy in (235.0, 355.0, 420.0, 460.0, 460.1, 500.0, 690.0):
        for rigid in (False, True):
            yield {"fy": fy, "rigid": rigid, "n": n}


def run_sh(case, ctx):
    from metku.eurocodes.en1993 import en1993_1_5 as F
    fy, rigid = case["fy"], case["rigid"]
    eta = 1.2 if fy <= 460 else 1.0
    ctx.eq(F.shear_eta(fy), eta, "eta", f"{case}: eta", 1e-12)
    post = "rigid" if rigid else "non-rigid"
    lams = {0.05 + 3 * k / case["n"] for k in range(case["n"])} | {x * f for x in (0.83 / eta, 1.08, 0.83) for f in (1 - 1e-7, 1, 1 + 1e-7)}
    prev = None
    for l in sorted(lams):
        c = F.shear_buckling_reduction_factor(l, eta, post)
        near = any(abs(l - x) < 1e-5 for x in (0.83 / eta, 1.08))
        ctx.eq(c, chi_w(l, eta, rigid), "chi-w", f"{case}: reduction factor at {l}", 1e-5 if not near else 1e-3)
        if prev is not None:
            ctx.expect(c <= prev * (1 + 2e-3), "chi-monotone", f"{case}: reduction factor increases at {l}: {prev} -> {c}")
        prev = c
    for hw, t, ar in itertools.product((400.0, 968.0, 1500.0), (4.0, 6.0, 10.0), (0.4, 0.999999, 1.0, 1.000001, 1.5, 3.0, 1000.0)):
        a = ar * hw
        ctx.eq(F.shear_buckling_coefficient(hw, a), k_tau(hw, a), "k-tau", f"{case}: {hw, a}: shear buckling coefficient", 1e-5)
        sE = 190000 * (t / hw) ** 2
        ctx.eq(F.sigma_E(t, hw), sE, "sigma-E", f"{case}: {t, hw}: elastic critical plate stress", 1e-9)
        tc = F.tau_crit(hw, a, t, hw, False)
        ctx.eq(tc, k_tau(hw, a) * sE, "tau-cr", f"{case}: {hw, a, t}: critical stress", 1e-5)
        ctx.eq(F.shear_buckling_slenderness(fy, tc), 0.76 * math.sqrt(fy / tc), "lambda-w", f"{case}: slenderness", 1e-9)
        ctx.eq(F.shear_buckling_web(0.7, fy, hw, t), 0.7 * fy * hw * t / math.sqrt(3) / G1, "web-part", f"{case}: contribution of the web", 1e-9)
        for rM, bf, tf in ((0.0, 200.0, 12.0), (0.5, 300.0, 20.0), (0.99, 250.0, 16.0)):
            c = a * (0.25 + 1.6 * bf * tf ** 2 * fy / (t * hw ** 2 * 355.0))
            ctx.eq(F.shear_buckling_flanges(bf, tf, fy, a, hw, t, 355.0, rM), bf * tf ** 2 * fy / (c * G1) * (1 - rM ** 2), "flange-part", f"{case}: contribution of the flanges {rM, bf, tf, a}", 1e-9)
    ctx.state((fy, rigid))


def tr_cases(tier):
    hws = (300.0, 968.0) if tier == "quick" else (200.0, 300.0, 500.0, 968.0, 1500.0)
    for hw in hws:
        for tw in (4.0, 6.0, 10.0, 20.0):
            for lt in "abc":
                yield {"hw": hw, "tw": tw, "type": lt}


def run_tr(case, ctx):
    from metku.eurocodes.en1993 import en1993_1_5 as F
    hw, tw, lt = case["hw"], case["tw"], case["type"]
    for fyw, fyf, (bf, tf), ss, ar, c in itertools.product((235.0, 355.0), (355.0, 460.0), ((150.0, 8.0), (300.0, 20.0)),
                                                          (0.0, 50.0, 200.0, 0.6 * hw, 2 * hw), (0, 0.8, 3.0), (0.0, 40.0, 2 * hw) if lt == "c" else (0.0,)):
        a = ar * hw
        try:
            want = transverse(fyw, hw, tw, fyf, bf, tf, ss, a, lt, c)
        except ZeroDivisionError:
            ctx.undefined += 1
            continue
        got = F.transverse_force_resistance(fyw, hw, tw, fyf, bf, tf, ss, a, lt, c)
        ctx.eq(got, want, "transverse", f"{case} fy={fyw, fyf} flange={bf, tf} ss={ss} a={a} c={c}: resistance to transverse force", 1e-5)
        ctx.state((case["hw"], tw, lt, round(want, 3)))


# ---------------------------------------------------------------- welded I
def wi_ref(d):
    """effective properties: (Aeff in compression, Ieff, Weff, zeff) ; None outside the domain"""
    h, tw, bt, bb, tt, tb, fy, aw = (d[k] for k in ("h", "tw", "bt", "bb", "tt", "tb", "fy", "a"))
    w = math.sqrt(2) * aw
    hw = h - tt - tb
    cw = hw - 2 * w

    def out(b, t):
        c = 0.5 * (b - tw) - w
        return c * (1 - rho_out(c / t / (28.4 * eps(fy) * math.sqrt(0.43))))
    nt, nb = out(bt, tt), out(bb, tb)
    A = bt * tt + bb * tb + hw * tw
    r1 = rho_int(cw / tw / (28.4 * eps(fy) * 2), 1.0)
    Ac = A - 2 * nt * tt - 2 * nb * tb - (1 - r1) * cw * tw
    psi = -1.0
    rects = []
    for _ in range(200):
        if psi < -3 or psi > 1:
            return None
        k = k_int(psi)
        bc = cw / (1 - psi) if psi < 0 else cw
        rho = rho_int(cw / tw / (28.4 * eps(fy) * math.sqrt(k)), psi)
        beff, (e1, e2) = widths(cw, psi, rho)
        neg = bc - beff
        top = w + e1
        bot = hw - top - neg
        rects = [((bt - 2 * nt) * tt, h - tt / 2, (bt - 2 * nt) * tt ** 3 / 12), (bb * tb, tb / 2, bb * tb ** 3 / 12),
                 (top * tw, h - tt - top / 2, tw * top ** 3 / 12), (bot * tw, tb + bot / 2, tw * bot ** 3 / 12)]
        Ae = sum(r[0] for r in rects)
        z = sum(r[0] * r[1] for r in rects) / Ae
        new = -(z - tb) / (h - tt - z)
        if abs(new - psi) < 1e-12:
            break
        psi = new
    if psi < -2.9:
        return None
    I = sum(r[2] + r[0] * (r[1] - z) ** 2 for r in rects)
    return Ac, I, I / max(z, h - z), z


def want_area(d):
    """area of the section whose plates are all in compression, stress ratio psi >= 0 over the web"""
    tw, w = d["tw"], math.sqrt(2) * d["a"]
    hw = d["h"] - d["tt"] - d["tb"]
    cw = hw - 2 * w
    A = hw * tw
    for b, t in ((d["bt"], d["tt"]), (d["bb"], d["tb"])):
        c = 0.5 * (b - tw) - w
        A += b * t - 2 * c * (1 - rho_out(c / t / (28.4 * eps(d["fy"]) * math.sqrt(0.43)))) * t
    for psi in (1.0, 0.6, 0.0):
        yield psi, A - (1 - rho_int(cw / tw / (28.4 * eps(d["fy"]) * math.sqrt(k_int(psi))), psi)) * cw * tw


def sections(tier):
    hs, tws = (500.0, 1000.0), (5.0, 6.0, 10.0)
    if tier != "quick":
        hs, tws = (400.0, 500.0, 800.0, 1000.0, 1400.0), (4.0, 5.0, 6.0, 8.0, 10.0, 14.0)
    for h, tw, (bt, bb), (tt, tb), fy, a in itertools.product(hs, tws, ((300.0, 300.0), (200.0, 300.0), (300.0, 200.0)), ((16.0, 16.0), (8.0, 16.0), (12.0, 8.0)), (235, 355, 420, 700), (4.0, 5.0)):
        yield dict(h=h, tw=tw, bt=bt, bb=bb, tt=tt, tb=tb, fy=fy, a=a)


def make(d):
    from metku.sections.steel.wi import WISection
    return WISection(d["h"], d["tw"], [d["bt"], d["bb"]], [d["tt"], d["tb"]], d["fy"], d["a"])


Q = {"Aeff": lambda s: s.Aeff, "Ieff": lambda s: s.I_eff_y, "Weff": lambda s: s.W_eff_y, "MRd4": lambda s: s.bending_resistance(C=4)[0]}
TOL = {"Aeff": 1e-9, "Ieff": 1e-3, "Weff": 2e-3, "MRd4": 2e-3}


def want(d):
    r = wi_ref(d)
    if r is None:
        return None
    Ac, I, W, z = r
    return {"Aeff": Ac, "Ieff": I, "Weff": W, "MRd4": W * d["fy"]}


def run_wi(d, ctx):
    w = want(d)
    if w is None:
        ctx.undefined += 1
        return
    for n, f in Q.items():
        ctx.eq(float(f(make(d))), w[n], "effective-" + n, f"{d}: {n} of a new section", TOL[n])
    for psi, A in want_area(d):
        ctx.eq(float(make(d).effective_area(psi)), A, "effective-area", f"{d}: effective area, compression varying with psi={psi} in the web", 1e-9)
    s = make(d)
    s.bending_resistance(C=4)
    c = s.section_class()
    cf = (0.5 * (d["bt"] - d["tw"]) - math.sqrt(2) * d["a"]) / d["tt"]
    full = cf <= 28.4 * 0.748 * math.sqrt(0.43) * eps(d["fy"]) and w["Ieff"] >= make(d).I[0] * (1 - 1e-9)
    ctx.expect(not full or abs(w["Weff"] - float(s.Wel[0])) < 1e-6 * w["Weff"], "fully-effective", f"{d}: fully effective section has Weff = Wel")
    ctx.state((d["h"], d["tw"], round(w["Ieff"]), round(w["Aeff"])))


H0 = dict(h=1000.0, tw=6.0, bt=300.0, bb=300.0, tt=8.0, tb=16.0, fy=355, a=5.0)
EDITS = {"h=700": ("h", 700.0), "tw=10": ("tw", 10.0), "tt=20": ("tt", 20.0), "tb=8": ("tb", 8.0), "bt=400": ("bt", 400.0), "bb=150": ("bb", 150.0)}
ALPHA = list(Q) + list(EDITS) + ["area(-1)", "web(-1)", "flange(bottom)", "mat=S235"]


def hi_cases(tier):
    q = set(Q)
    for w in histories(ALPHA, 3 if tier == "quick" else 4, mindepth=1):
        if w[-1] in q:
            yield w


def run_hi(word, ctx):
    d, s = dict(H0), make(H0)
    for o in word:
        if o in EDITS:
            k, v = EDITS[o]
            d[k] = v
            setattr(s, k, v)
        elif o == "mat=S235":
            d["fy"] = 235
            s.material = "S235"
        elif o == "area(-1)":
            s.effective_area(-1)
        elif o == "web(-1)":
            s.effective_web(-1)
        elif o == "flange(bottom)":
            s.effective_flange("bottom")
        else:
            w = want(d)
            got = float(Q[o](s))
            if w is None:
                ctx.undefined += 1
                continue
            ctx.eq(got, w[o], "history-" + o, f"{word}: {o}", TOL[o])
    ctx.state((sorted(d.items()), word[-1]))


def ws_cases(tier):
    for d in sections(tier):
        if d["a"] == 5.0:
            yield d


def run_ws(d, ctx):
    hw, tw, fy = d["h"] - d["tt"] - d["tb"], d["tw"], d["fy"]
    eta = 1.2 if fy <= 460 else 1.0
    At, Ab = d["bt"] * d["tt"], d["bb"] * d["tb"]
    MfRd = min(At, Ab) * fy * (d["h"] - 0.5 * (d["tt"] + d["tb"]))
    for ar, rigid, N, m in itertools.product((0.7, 1.0, 2.5, None), (False, True), (0.0, -0.3, 0.2), (0.0, 0.5, -0.8)):
        s = make(d)
        Nd = N * (At + Ab) * fy
        M = m * MfRd * (1 - abs(N))
        s.Ned, s.Med = Nd, [M, 0.0]
        kw = {"end_post": "rigid" if rigid else "non-rigid"}
        a = 10e5
        if ar is not None:
            a = kw["stiffener_spacing"] = ar * hw
        got = float(s.shear_buckling_resistance(**kw))
        full = eta * fy * hw * tw / math.sqrt(3) / G1
        if hw / tw < 72 * eps(fy) / eta:
            want_ = full
        else:
            lam = 0.76 * math.sqrt(fy / (k_tau(hw, a) * 190000 * (tw / hw) ** 2))
            bf, tf = (d["bt"], d["tt"]) if At <= Ab else (d["bb"], d["tb"])
            bf = min(bf, 30 * eps(fy) * tf + tw)
            c = a * (0.25 + 1.6 * bf * tf ** 2 / (tw * hw ** 2))
            want_ = min(full, chi_w(lam, eta, rigid) * fy * hw * tw / math.sqrt(3) / G1 + bf * tf ** 2 * fy / (c * G1) * (1 - m ** 2))
        ctx.eq(got, want_, "shear-buckling", f"{d} a={a} {kw['end_post']} N={N} M={m}: shear buckling resistance", 1e-5)
    for lt, ss, ar in itertools.product("abc", (60.0, 300.0), (0.0, 2.0)):
        s = make(d)
        got = float(s.transverse_load_resistance(ss, lt, ar * hw, 30.0))
        ctx.eq(got, transverse(fy, hw, tw, fy, d["bt"], d["tt"], ss, ar * hw, lt, 30.0), "transverse-wi", f"{d} {lt} ss={ss} a={ar * hw}: resistance to transverse force", 1e-5)
    ctx.state((d["h"], tw, d["bt"], d["tt"], fy))


def families(tier):
    return [
        Family("plates", lambda: fn_cases(tier), run_fn, "stress ratios incl. the limits of Tables 4.1 and 4.2 x plates x slenderness", "-3 <= psi <= 1, every table limit and its neighbours"),
        Family("shear", lambda: sh_cases(tier), run_sh, "steel x end post x slenderness, panel proportions", "7 strengths, slenderness grid incl. limits, 63 panels"),
        Family("transverse", lambda: tr_cases(tier), run_tr, "web x load type x strengths x flange x bearing length x stiffeners", "%d webs x 3 types x all parameters" % (8 if tier == "quick" else 20)),
        Family("effective", lambda: sections(tier), run_wi, "welded I-sections, symmetric or not", "all combinations of the dimension alphabet"),
        Family("effective-history", lambda: hi_cases(tier), run_hi, "all histories of dimension/material edits and effective-section queries", "depth %d" % (3 if tier == "quick" else 4)),
        Family("welded-shear", lambda: ws_cases(tier), run_ws, "welded I-sections x stiffeners x end post x concurrent forces", "all combinations"),
    ]
