"""P34: cold-formed steel: open sections (EN 1993-1-3 Annex C), Z- and C-sections, sheets and the formulas of the standard."""
import itertools
import math
import numpy as np
from ..core import Family, canon, histories
from ..ref import thinwall as TW


def observe(p):
    """the public observations of an open section"""
    Iy, Iz = p.second_moments_gc()
    y, z, A = p.centroid()
    Sy, Sz = p.first_moments()
    Iy0, Iz0 = p.second_moments()
    return {"A": p.area(), "yc": y, "zc": z, "Sy": Sy, "Sz": Sz, "Iy": Iy, "Iz": Iz, "Iyz": p.product_moment_gc(), "Iy0": Iy0, "Iz0": Iz0, "Iyz0": p.product_moment(),
            "It": p.torsion_constant(), "A2": A, "Iy2": p.Iy(), "Iz2": p.Iz(), "Iy02": p.Iy0(), "Iz02": p.Iz0()}


def judge(ctx, p, nodes, ts, tag, full=True):
    ref = TW.properties(nodes, ts)
    got = observe(p)
    size = max(max(abs(v) for q in nodes for v in q), 1.0)
    A = ref["A"]
    for k, v in got.items():
        r = ref[k.rstrip("2") if k != "I2" else k]
        sc = A * size**2 if k.startswith("I") and not k.startswith("It") else A * size if k.startswith("S") else size if k in ("yc", "zc") else 0.0
        ctx.eq(float(v), float(r), "prop:" + k.rstrip("2"), f"{tag}: {k}", 1e-9, 1e-9 * sc)
    (I1, I2), ang = p.principal_axes()
    ctx.eq([float(I1), float(I2)], [ref["I1"], ref["I2"]], "principal", f"{tag}: principal second moments", 1e-7, 1e-9 * A * size**2)
    off = 0.5 * (ref["Iy"] - ref["Iz"]) * math.sin(2 * ang) + ref["Iyz"] * math.cos(2 * ang)
    ctx.eq(float(off), 0.0, "principal-angle", f"{tag}: product moment about the axes at {ang}", 1e-7, 1e-7 * A * size**2)
    if "ysc" in ref:
        ysc, zsc = p.shear_center()
        ctx.eq([float(ysc), float(zsc)], [ref["ysc"], ref["zsc"]], "shear-centre", f"{tag}: shear centre", 1e-6, 1e-6 * size)
        ctx.eq(float(p.warping_constant()), ref["Iw"], "warping", f"{tag}: warping constant", 1e-6, 1e-8 * A * size**4)
    if min(ts) > 0:
        ctx.eq(float(p.torsion_modulus()), ref["It"] / min(ts), "torsion-modulus", f"{tag}: torsion modulus", 1e-9)
    ctx.state(canon([ref[k] for k in ("A", "Iy", "Iz", "Iyz", "It")] + [ref.get("Iw")], 6))


def make(nodes, t, how):
    from metku.eurocodes.en1993.en1993_1_3.open_prof import OpenProf, Node
    if how == "nodes":
        nodes = [Node(*q) for q in nodes]
    elif how == "array":
        nodes = np.array(nodes)
    return OpenProf(nodes, t)


def run_shape(case, ctx):
    for how, t in case["t"]:
        nodes = case["n"]
        ts = t if isinstance(t, list) else [t] * (len(nodes) - 1)
        judge(ctx, make(nodes, t, how), nodes, ts, f"{nodes} t={t}")


LAT = [(0, 0), (60, 0), (0, 80), (60, 80), (20, 50), (-40, 30), (0, -80)]


def shape_cases(tier):
    deep = tier == "thorough"
    for k in (2, 3, 4, 5) if deep else (2, 3, 4):
        for w in itertools.product(range(len(LAT)), repeat=k):
            if any(a == b for a, b in zip(w[:-1], w[1:])):
                continue
            base = [[float(v) for v in LAT[i]] for i in w]
            for dy, dz in ((0, 0), (137, -58)) if k < 4 or deep and k == 4 else ((0, 0),):
                n = [[a + dy, b + dz] for a, b in base]
                ts = [("list", 1.5), ("nodes", [1.0 + 0.5 * (i % 3) for i in range(k - 1)])]
                if k < 4:
                    ts += [("array", 2), ("list", [2] * (k - 1)), ("list", [3.0] + [1.0] * (k - 2))]
                yield {"n": n, "t": ts}


PROFS = {"C": [[20, 3], [20, 0], [0, 0], [0, 60], [20, 60], [20, 57]], "Z": [[-30, 15], [-30, 0], [0, 0], [0, 90], [35, 90], [35, 70]],
         "L": [[50, 0], [0, 0], [0, 50]], "hat": [[0, 0], [20, 0], [30, 40], [60, 40], [70, 0], [90, 0]]}
OPS = [("split", 0, 0.5), ("split", 1, 0.25), ("split", -1, 0.8), ("thick", 0, 3.0), ("thick", 1, 0.0), ("move", 1, (5.0, -7.0)), ("move", -1, (0.0, 11.0)), ("query",)]


def run_hist(case, ctx):
    nodes = [[float(a), float(b)] for a, b in PROFS[case["prof"]]]
    ts = [1.5] * (len(nodes) - 1) if case["t"] == "one" else [1.0 + 0.5 * (i % 2) for i in range(len(nodes) - 1)]
    p = make(nodes, 1.5 if case["t"] == "one" else list(ts), "list")
    for op in case["w"]:
        if op[0] == "split":
            i = op[1] % len(ts)
            a, b = nodes[i], nodes[i + 1]
            p.split_segment(i, op[2])
            nodes.insert(i + 1, [a[0] + op[2] * (b[0] - a[0]), a[1] + op[2] * (b[1] - a[1])])
            ts.insert(i, ts[i])
        elif op[0] == "thick":
            ts[op[1]] = op[2]
            p.segments[op[1]].t = op[2]
        elif op[0] == "move":
            i = op[1] % len(nodes)
            nodes[i] = [nodes[i][0] + op[2][0], nodes[i][1] + op[2][1]]
            p.nodes[i].y += op[2][0]
            p.nodes[i].z += op[2][1]
        judge(ctx, p, nodes, ts, f"{case['prof']} {case['t']} after {op}")
        ctx.expect(p.n == len(nodes) and len(p.segments) == len(ts), "split-count", f"{p.n} nodes, {len(p.segments)} segments")


def hist_cases(tier):
    for prof in PROFS:
        for t in ("one", "list"):
            for w in histories(list(range(len(OPS))), 4 if tier == "thorough" else 3, mindepth=1):
                yield {"prof": prof, "t": t, "w": [OPS[i] for i in w]}


# ------------------------------------------------------------------ Z and C sections
def run_zc(case, ctx):
    from metku.eurocodes.en1993.en1993_1_3 import cf_profs as CF
    kind, t, h, a, b, ca, cb, r = case["d"]
    t, h, a, b, r = map(float, (t, h, a, b, r))
    tc = case["coat"]
    kw = {} if tc is None else {"t_coat": tc}
    s = (CF.ZSection if kind == "Z" else CF.CSection)(t_nom=t, h=h, a=a, b=b, ca=ca, cb=cb, r=r, material=case["mat"], **kw)
    tc = 0.04 if tc is None else tc
    R = (1.5 * t if r == 0 else r) + 0.5 * t
    tk = t - tc
    tag = str(case)
    H = h - t
    wa, wb = a - t * (1 if ca else 0.5), b - t * (1 if cb else 0.5)
    sg = -1 if kind == "Z" else 1
    pts = [(sg * wb, -H / 2), (0.0, -H / 2), (0.0, H / 2), (wa, H / 2)]
    if cb:
        pts.insert(0, (sg * wb, -H / 2 + cb - t / 2))
    if ca:
        pts.append((wa, H / 2 - ca + t / 2))
    for p, q in zip(pts[:-1], pts[1:]):
        ends = (p != pts[0]) + (q != pts[-1])
        if math.dist(p, q) < ends * R:
            ctx.undefined += 1
            return
    n = 5
    line = TW.fillet(pts, R, n)
    judge(ctx, s.prof, line, [tk] * (len(line) - 1), tag)
    exact = TW.fillet(pts, R, 400)
    ref = TW.properties(exact, [tk] * (len(exact) - 1))
    L = ref["A"] / tk
    ctx.eq(float(s.center_line_length()), L, "zc-length", f"{tag}: length of the middle line", 1e-5)
    ctx.eq(float(s.Agross()), ref["A"], "zc-area", f"{tag}: gross area", 1e-5)
    ctx.eq(float(s.A), ref["A"], "zc-area", f"{tag}: area of the model", 1e-2)
    ctx.eq([float(s.Iy), float(s.Iz), float(s.It)], [ref["Iy"], ref["Iz"], ref["It"]], "zc-inertia", f"{tag}: Iy, Iz, It", 2e-2)
    ctx.eq(float(s.Iw), ref["Iw"], "zc-warping", f"{tag}: Iw", 5e-2)
    ctx.eq([float(v) for v in s.shear_center], [ref["ysc"], ref["zsc"]], "zc-shear-centre", f"{tag}: shear centre", 0, 0.03 * max(H, wa, wb))
    rho = 7850e-9
    ctx.eq([float(s.weight()), float(s.self_weight())], [rho * ref["A"], 9.81 * rho * ref["A"]], "zc-weight", f"{tag}: weight", 1e-5)
    fy, fu = {"S350GD": (350, 420), "S250GD": (250, 330), "S355MC": (355, 430)}[case["mat"]]
    bends = 2 + (ca > 0) + (cb > 0)
    ctx.eq(float(s.fya), min(fy + (fu - fy) * 7 * bends * tk**2 / ref["A"], 0.5 * (fy + fu)), "zc-fya", f"{tag}: average yield strength", 1e-6)
    ctx.expect(bool(s.issymmetric()) == (a == b and ca == cb), "zc-symmetric", tag)
    # notional widths: between the middle points of the corners
    m = R * math.sin(math.pi / 4)
    st = {"bp_w": (H - 2 * R, 2), "bp_t": (wa - R * (2 if ca else 1), 2 if ca else 1), "bp_b": (wb - R * (2 if cb else 1), 2 if cb else 1),
          "bp_t_lip": (ca - t / 2 - R, 1) if ca else (0, 0), "bp_b_lip": (cb - t / 2 - R, 1) if cb else (0, 0)}
    for k, (c, e) in st.items():
        ctx.eq(float(getattr(s, k)), c + e * m, "zc-notional", f"{tag}: {k}", 1e-9, 1e-9)
    # plate slenderness and effective widths of the parts
    eps = math.sqrt(235 / fy)

    def internal(bp, psi):
        k = 4.0 if psi == 1 else 8.2 / (1.05 + psi) if psi > 0 else 7.81 - 6.29 * psi + 9.78 * psi**2 if psi > -1 else 23.9
        lp = bp / tk / (28.4 * eps * math.sqrt(k))
        return lp, 1.0 if lp <= 0.5 + math.sqrt(0.085 - 0.055 * psi) else min(1.0, (lp - 0.055 * (3 + psi)) / lp**2)

    def outstand(bp, k):
        lp = bp / tk / (28.4 * eps * math.sqrt(k))
        return lp, 1.0 if lp <= 0.748 else min(1.0, (lp - 0.188) / lp**2)
    full = {k: c + e * m for k, (c, e) in st.items()}
    for psi in (1.0, 0.5, 0.0, -0.4, -1.0):
        s.effective_width_web(psi)
        ctx.eq([float(s._lambda_w), float(s._rho_w), float(s._psi_w)], [*internal(full["bp_w"], psi), psi], "zc-web", f"{tag}: web at stress ratio {psi}", 1e-9)
    for f, lip, key in (("top", ca, "t"), ("bottom", cb, "b")):
        bp = full["bp_" + key]
        s.effective_width_flange(1.0, f)
        want = internal(bp, 1.0) if lip else outstand(bp, 0.43)
        ctx.eq([float(getattr(s, "_lambda_" + key)), float(getattr(s, "_rho_" + key))], want, "zc-flange", f"{tag}: {f} flange in compression", 1e-9)
        q = full[f"bp_{key}_lip"] / bp
        if lip and q <= 0.6:
            s.effective_width_edge_stiffener(f)
            k = 0.5 if q <= 0.35 else 0.5 + 0.83 * (q - 0.35)**(2 / 3)
            want = outstand(full[f"bp_{key}_lip"], k)
            ctx.eq([float(getattr(s, f"_lambda_{key}_lip")), float(getattr(s, f"_rho_{key}_lip"))], want, "zc-lip", f"{tag}: {f} lip", 1e-9)


def zc_cases(tier):
    deep = tier == "thorough"
    T = (1.0, 1.5, 2.0, 3.0) if deep else (1.0, 2.0)
    for kind, t, h, (a, b), (ca, cb), r in itertools.product("ZC", T, (100, 120, 250, 350) if deep else (100, 250), ((42, 48), (60, 60), (73, 65), (20, 30)),
                                                              ((0, 0), (18, 18), (20, 0), (0, 12), (10, 26), (9, 9)), (0, 1.0, 2.0, 4.0)):
        for mat, coat in (("S350GD", None), ("S250GD", 0.02), ("S355MC", 0.0)) if deep else (("S350GD", None),) if r else (("S355MC", 0.0),):
            yield {"d": [kind, t, h, a, b, ca, cb, r], "mat": mat, "coat": coat}


def run_sheet(case, ctx):
    from metku.eurocodes.en1993.en1993_1_3.trapezoidal import TrapezoidalSheet
    t, h, bt, bb, ang, n = case["d"]
    s = TrapezoidalSheet(t, h, bt, bb, ang, ntroughs=n)
    hw, tk = h - t, t - 0.04
    th = math.radians(ang)
    web = hw / math.sin(th)
    ctx.eq([float(s.hw), float(s.t)], [hw, tk], "sheet-height", f"{case}: height, thickness", 1e-9)
    ctx.eq(float(s.sw), web, "sheet-web", f"{case}: length of the web", 1e-9)
    # heights between middle lines or between outer faces
    lo, hi = (bt + bb + 2 * x * math.cos(th) / math.sin(th) for x in (hw, h))
    ctx.expect(lo - 1e-6 <= float(s.pitch) <= hi + 1e-6, "sheet-pitch", f"{case}: pitch {float(s.pitch)}, geometry {lo}-{hi}")
    ctx.eq(float(s.width), n * float(s.pitch), "sheet-width", f"{case}: width", 1e-9)
    ctx.eq(float(s.A), n * tk * (bt + bb + 2 * web), "sheet-area", f"{case}: area", 1e-9)
    ctx.state(canon(s.A))


def sheet_cases(tier):
    for d in itertools.product((0.6, 0.8, 1.0, 1.5), (20, 45, 70, 130), (40, 111), (40, 75, 120), (45, 60, 61, 75, 90), (1, 3, 5)):
        yield {"d": list(d)}


# ------------------------------------------------------------------ formulas
def rw1(fyb, t, hw, ss, c, r, phi, e, fl, web):
    """6.1.7.2 written from the standard"""
    k = fyb / 228
    T = t * t * fyb
    k1, k2, k3, k4, k5 = 1.33 - 0.33 * k, min(max(1.15 - 0.15 * r / t, 0.5), 1.0), 0.7 + 0.3 * (phi / 90)**2, 1.22 - 0.22 * k, min(1.06 - 0.06 * r / t, 1.0)
    q, s = hw / t, ss / t
    end = c <= 1.5 * hw
    if web:
        if e == 0:
            if end:
                return (1 + q / 750 if q < 150 else 1.2) * (8.8 + 1.1 * math.sqrt(s)) * T
            return max(1.49 - 0.53 * k, 0.6) * (0.88 - 0.12 * t / 1.9) * (13.2 + 2.87 * math.sqrt(s)) * T
        if end:
            return (0.98 - q / 865) / k * (0.64 + 0.31 * t / 1.9) * (8.8 + 1.1 * math.sqrt(s)) * T
        return (1 / k if q < 66.5 else (1.1 - q / 665) / k) * (0.82 + 0.15 * t / 1.9) * (13.2 + 2.87 * math.sqrt(s)) * T
    if e == 0:
        if end:
            if fl:
                return k1 * k2 * k3 * (9.04 - q / 60) * (1 + 0.01 * s) * T
            return k1 * k2 * k3 * (5.92 - q / 132) * ((1 + 0.01 * s) if s <= 60 else (0.71 + 0.015 * s)) * T
        return k3 * k4 * k5 * (14.7 - q / 49.5) * ((1 + 0.007 * s) if s <= 60 else (0.75 + 0.011 * s)) * T
    if end:
        return k1 * k2 * k3 * (6.66 - q / 64) * (1 + 0.01 * s) * T
    return k3 * k4 * k5 * (21.0 - q / 16.3) * (1 + 0.0013 * s) * T


def run_rw1(case, ctx):
    from metku.eurocodes.en1993.en1993_1_3 import en1993_1_3 as E
    fyb, t, hw, ss, c, r, phi = case["d"]
    for e in (0.0, 0.5 * hw):
        for fl, web in ((False, False), (True, False), (False, True)):
            got = E.RwRd(fyb, t, hw, ss, c * hw, r, phi=phi, e=e, flange_stiffeners=fl, web_stiffeners=web)
            want = rw1(fyb, t, hw, ss, c * hw, r, phi, e, fl, web)
            ctx.eq(float(got), want, "rw1", f"{case} e={e} flange stiffeners {fl} web stiffeners {web}", 1e-9, 1e-6)
            ctx.state(canon(want))


def rw1_cases(tier):
    deep = tier == "thorough"
    yield from ({"d": list(d)} for d in itertools.product((220, 250, 350, 460) if deep else (220, 350), (0.96, 1.16, 1.46, 1.96, 2.5), (60.0, 100.0, 130.0, 200.0, 300.0) if deep else (60.0, 130.0, 300.0), (50, 60.0, 100, 150.0),
                                                          (0.0, 1.5, 1.6, 4.0), (1.0, 2.4, 4.0, 6.0), (45, 65, 90) if deep else (60, 90)))


def run_rw2(case, ctx):
    from metku.eurocodes.en1993.en1993_1_3 import en1993_1_3 as E
    fyb, t, hw, ss, r, phi = case["d"]
    base = t * t * math.sqrt(fyb * 210000) * (1 - 0.1 * math.sqrt(r / t)) * (2.4 + (phi / 90)**2)
    la = lambda x: 0.5 + math.sqrt(0.02 * x / t)
    for V in ([300, 300], [300, 250], [-300, 200], [300, 180], [300, -170], [300, 160], [300, 100], [300, 0]):
        bv = (abs(V[0]) - abs(V[1])) / (abs(V[0]) + abs(V[1]))
        L = min(200, ss if bv <= 0.2 else 10 if bv >= 0.3 else ss + (bv - 0.2) / 0.1 * (10 - ss))
        for kw in ({}, {"e": 1.6 * hw}, {"c": 2 * hw}):
            ctx.eq(float(E.RwRd_two_webs(fyb, r, t, phi, hw, ss, code="old", VEd=list(V), **kw)), 0.15 * base * la(L), "rw2-old", f"{case} {V} {kw} category 2", 1e-9)
    for kw in ({"e": 0.5 * hw}, {"e": 1.5 * hw}, {"c": 0.0}, {"c": 1.2 * hw}):
        ctx.eq(float(E.RwRd_two_webs(fyb, r, t, phi, hw, ss, code="old", VEd=[1, 1], **kw)), 0.075 * base * la(10), "rw2-old", f"{case} {kw} category 1", 1e-9)
        a = 0.075 if "e" in kw else min(0.18 * math.sqrt((kw["c"] + ss) / 1.5 / hw), 0.15)
        ctx.eq(float(E.RwRd_two_webs(fyb, r, t, phi, hw, ss, code="new", **kw)), a * base * la(10), "rw2-new", f"{case} {kw} category 1", 1e-9)
    for kw in ({}, {"e": 2 * hw}, {"c": 1.51 * hw}):
        ctx.eq(float(E.RwRd_two_webs(fyb, r, t, phi, hw, ss, code="new", **kw)), 0.15 * base * la(min(ss, 200)), "rw2-new", f"{case} {kw} category 2", 1e-9)
    ctx.state(canon(base))


def rw2_cases(tier):
    yield from ({"d": list(d)} for d in itertools.product((220, 350, 420), (0.71, 0.96, 1.16, 1.46), (45, 70.0, 130), (10, 60.0, 150, 250.0), (2.0, 3, 5.0), (45, 65.0, 90)))


def run_misc(case, ctx):
    from metku.eurocodes.en1993.en1993_1_3 import en1993_1_3 as E
    k, d = case["k"], case["d"]
    tag = str(case)
    if k == "fya":
        fyb, fu, t, A, n = d
        for kk in (5, 7):
            ctx.eq(float(E.fya(fyb, fu, t, A, n, kk)), min(fyb + (fu - fyb) * kk * n * t * t / A, 0.5 * (fu + fyb)), "fya", tag, 1e-9)
    elif k == "notional":
        b, r, phi = d
        for n in (1, 2):
            got = E.notional_width(b, [r] * n, [phi] * n)
            ctx.eq(float(got), b + n * r * math.sin(math.radians(phi / 2)), "notional", tag, 1e-9)
        ctx.eq(float(E.notional_width(b, r, phi)), b + r * math.sin(math.radians(phi / 2)), "notional", f"{tag}: one corner given as numbers", 1e-9)
        ctx.eq(float(E.rounding_factor([r, 2 * r], [phi, 90], [b, 50.0, 30])), 0.43 * (r * phi / 90 + 2 * r) / (b + 80), "rounding", tag, 1e-9)
    elif k == "chi_d":
        x = d[0]
        ctx.eq(float(E.distortional_buckling_reduction_factor(x)), 1.0 if x <= 0.65 else 1.47 - 0.723 * x if x < 1.38 else 0.66 / x, "chi-d", tag, 1.5e-2 if x == 1.38 else 1e-9)
    elif k == "ksigma":
        x = d[0]
        ctx.eq(float(E.buckling_factor_edge_stiffener(x)), 0.5 if x <= 0.35 else 0.5 + 0.83 * (x - 0.35)**(2 / 3), "k-sigma", tag, 1e-9)
    elif k == "scr":
        I, A, EE, K = d
        ctx.eq(float(E.distortional_buckling_stress(I, A, EE, K)), 2 * math.sqrt(K * EE * I) / A, "sigma-cr", tag, 1e-9)
    elif k == "bearing":
        fu, dd, t, q = d
        t1 = t * q
        a0 = min(3.2 * math.sqrt(t / dd), 2.1)
        a1 = a0 if t < 1.0 else 2.1
        a = a0 + (a1 - a0) * min(1.0, max(0.0, (t1 / t - 1) / 1.5))
        f, al = E.screw_bearing_resistance(fu, dd, t, t1)
        ctx.eq([float(al), float(f)], [a, a * fu * dd * t / 1.25], "bearing", tag, 1e-9)
    elif k == "validity":
        e1, e2, p1, p2, dd = d
        ctx.expect(bool(E.screw_validity(e1 * dd, e2 * dd, p1 * dd, p2 * dd, dd, 1.0, 2.0)) == (e1 >= 3 and e2 >= 1.5 and p1 >= 3 and p2 >= 3 and 3.0 <= dd <= 8.0), "validity", tag)
    elif k == "net":
        ctx.eq(float(E.screw_net_secton_resistance(*d)), d[0] * d[1] / 1.25, "net", tag, 1e-9)
        ctx.eq(float(E.sheeting_shear_stiffness(d[0] / 100, 1800.0, 45.0, d[1] * 50)), 1000 * math.sqrt((d[0] / 100)**3) * (50 + 10 * (d[1] * 50)**(1 / 3)) * 1800 / 45, "stiffness", tag, 1e-9)
    elif k == "fire":
        fu, dd, t, fub, e1, e2, T = d
        ky = np.interp(T, [20, 400, 500, 600, 700, 800, 900, 1000, 1100, 1200], [1, 1, .78, .47, .23, .11, .06, .04, .02, 0])
        kb = np.interp(T, [20, 100, 150, 200, 300, 400, 500, 600, 700, 800, 900, 1000], [1, .968, .952, .935, .903, .775, .55, .22, .1, .067, .033, 0])
        ab = min(e1 / 3, kb * fub / (ky * fu), 1.0)
        want = min(2 * e2 - 1, 2.5) * ab * kb * fub * dd * t
        ctx.eq(float(E.screw_bearing_resistance_elevated_temp(fu, dd, t, fub, e1 * dd, e2 * dd, T)), want, "fire", tag, 1e-6)
    elif k == "cda":
        ba, tn, A, bT, bR = d
        for load, pos in (("gravity", "pos"), ("gravity", "neg"), ("uplift", "pos"), ("uplift", "neg")):
            p = 1.1 if pos == "pos" and tn > 0.75 else 1.5
            kba = (ba / 100)**2 if ba <= 125 else 1.25 * ba / 100
            lo, hi = (0.08, 0.095) if pos == "pos" else (0.16, 0.095)
            kA = 1 + (A - 1) * (lo + (hi - lo) * min(1.0, (tn - 0.75) / 0.25)) if load == "gravity" else 1.0
            C, m = ((5.2, 40) if pos == "pos" else (3.1, 120)) if load == "gravity" else (2.6, 40)
            want = C * kba * (tn / 0.75)**p * (1.0 if bR <= 185 else 185 / bR) * kA * (1.0 if bT <= m else math.sqrt(m / bT))
            ctx.eq(float(E.CD_A(ba, tn, pos, A, bT, bR, load)), want, "cda", f"{tag} {load} {pos}", 1e-9)
    elif k == "axial":
        Ned, A, fyb, fya, ae, lr = d
        got = E.axial_force_resistance(Ned, A, fya=fya, fyb=fyb, Aeff=ae * A, lambda_ratio=lr)
        want = fya * A if Ned >= 0 else fyb * ae * A if ae < 1 else min(A * (fyb + 4 * (fya - fyb) * (1 - lr)), fya * A)
        ctx.eq(float(got), want, "axial", tag, 1e-9)
    ctx.state((k, canon(d)))


def misc_cases(tier):
    P = itertools.product
    dom = {"fya": P((220, 250.0, 350), (300.0, 420), (0.7, 1.46, 3.96, 6), (150.0, 400, 2000), (0, 2, 4, 8)),
           "notional": P((10.0, 55, 120.0), (1.5, 2, 5.0), (30, 60.0, 90)),
           "chi_d": [(x,) for x in (0.0, 0.2, 0.649, 0.65, 0.651, 0.9, 1.2, 1.379, 1.38, 1.381, 1.6, 2.5)],
           "ksigma": [(x,) for x in (0.0, 0.1, 0.34, 0.35, 0.36, 0.45, 0.59, 0.6)],
           "scr": P((30.0, 400), (20.0, 90), (210e3,), (0.1, 0.45, 3)),
           "bearing": P((300, 420.0), (4.2, 4.8, 5.5, 6.3), (0.5, 0.7, 0.96, 0.99, 1.0, 1.16, 1.46, 2.5, 3.0), (1, 1.2, 2.0, 2.4, 2.5, 2.6, 6)),
           "validity": P((2.9, 3, 4), (1.0, 1.4, 1.5, 2), (2.9, 3.0), (2.9, 3.0), (2.9, 3.0, 5.5, 8.0, 8.1)),
           "net": P((80.0, 150, 333), (300, 420.0)),
           "fire": P((420.0, 330), (5.5, 6.3), (0.71, 0.96, 2.0), (400, 800), (1.5, 2.9, 3, 10), (1.2, 1.74, 1.76, 2.1), (20, 100, 250, 400, 450, 639, 850)),
           "cda": P((60, 100.0, 124, 125, 126, 150, 199), (0.75, 0.8, 0.9, 1.0, 1.5), (1.0, 3, 12.0), (30, 40, 41, 80.0, 120, 121, 200), (100, 185, 186, 300.0)),
           "axial": P((-50e3, 0.0, 50e3), (300.0, 720), (350.0, 250), (350.0, 380), (0.4, 0.99, 1.0), (0.2, 0.7, 1.0))}
    for k, it in dom.items():
        for d in it:
            yield {"k": k, "d": list(d)}


def families(tier):
    return [
        Family("shapes", lambda: shape_cases(tier), run_shape, "all lines over a lattice of 7 points x thickness patterns x places", "2-4 (5) nodes, 2-5 thickness patterns, 1-2 places"),
        Family("histories", lambda: hist_cases(tier), run_hist, "all sequences of splits, thickness changes and moved nodes of one section", "4 sections x 2 x 8 letters, depth 3 (4)"),
        Family("zc", lambda: zc_cases(tier), run_zc, "Z- and C-sections: all dimensions", "2 x 2 (4) x 2 (4) x 4 x 6 x 4 x 1 (3)"),
        Family("sheets", lambda: sheet_cases(tier), run_sheet, "trapezoidal sheets: all dimensions", "4 x 4 x 2 x 3 x 5 x 3"),
        Family("one-web", lambda: rw1_cases(tier), run_rw1, "transverse forces, one web: all inputs", "2 (4) x 5 x 3 (5) x 4 x 4 x 4 x 2 (3) x 6"),
        Family("two-webs", lambda: rw2_cases(tier), run_rw2, "transverse forces, two webs: all inputs", "3 x 4 x 3 x 4 x 3 x 3 x 35"),
        Family("formulas", lambda: misc_cases(tier), run_misc, "formulas of the standard over grids with the borders of their branches", "11 formulas, 8-720 inputs"),
    ]
