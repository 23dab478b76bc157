"""P23: resistances of welded hollow section joints, EN 1993-1-8 chapter 7 (Tables 7.11 and 7.12)."""
import importlib
import itertools
import math
from ..core import Family, canon

E_STEEL = 210000.0
FY = {"S355": 355, "S420": 420, "S500": 500, "S700": 700, "S235": 235}


def mods():
    importlib.import_module("metku.framefem.framefem")
    return (importlib.import_module("metku.eurocodes.en1993.en1993_1_8.rhs_joints"), importlib.import_module("metku.sections.steel.RHS"),
            importlib.import_module("metku.structures.steel.steel_member"))


# ------------------------------------------------------------------ reference
def reduction(fy, r):
    return r if r else 1.0 if fy <= 355 else 0.9 if fy <= 460 else 0.8


def section(H, B, T, fy):
    """A and elastic modulus of a cold-formed section, shear area for shear along the height"""
    R = 2 * T if T <= 6 else 2.5 * T if T <= 10 else 3 * T
    A = 2 * (H - 2 * R) * T + 2 * (B - 2 * R) * T + math.pi * (R * R - (R - T) ** 2)
    out = B * H ** 3 / 12 - 4 * corner(R, H)
    ri = max(R - T, 0.0)
    inn = (B - 2 * T) * (H - 2 * T) ** 3 / 12 - 4 * corner(ri, H - 2 * T)
    return A, (out - inn) / (H / 2), A * H / (H + B)


def corner(r, H):
    """second moment, about the axis of the section, of the spandrel cut off by a rounded corner"""
    if r <= 0:
        return 0.0
    a = r * r * (1 - math.pi / 4)
    # spandrel = square r x r minus a quarter circle centred at its inner corner
    d0 = H / 2 - r
    sq = r * r * (d0 + r / 2) ** 2 + r ** 4 / 12
    q = math.pi * r * r / 4
    yc = 4 * r / (3 * math.pi)
    iq = math.pi * r ** 4 / 16 - q * yc * yc
    return sq - (iq + q * (d0 + yc) ** 2)


def kn(S, beta):
    A, W, _ = section(*S["chord"], 0)
    n = (-S["N0"] / A + S["M0"] / W) / FY[S["fy0"]]
    return 1.0 if n <= 0 else max(0.0, min(1.0, 1.3 - 0.4 * n / beta))


def ref_k(S):
    """[chord face, chord shear, brace, punching] resistances of the braces, N0Rd, utilizations, and whether punching is checked"""
    H0, B0, T0 = S["chord"]
    fy0 = FY[S["fy0"]]
    r = reduction(fy0, S["r"])
    br, an = S["braces"], [math.radians(a) for a in S["angles"]]
    beta = sum(b[0] + b[1] for b in br) / 4 / B0
    gam = B0 / 2 / T0
    tp = S["tp"] or T0
    A, W, Av = section(H0, B0, T0, fy0)
    cff = [r * 8.9 * kn(S, beta) * fy0 * tp ** 2 * math.sqrt(gam) * beta / math.sin(a) for a in an]
    al = math.sqrt(1 / (1 + 4 * S["gap"] ** 2 / 3 / T0 ** 2))
    Ae = (2 * H0 + al * B0) * T0
    cs = [r * fy0 * Ae / math.sqrt(3) / math.sin(a) for a in an]
    bf, ps = [], []
    for (h, b, t), fy, a in zip(br, S["fy"], an):
        fi = FY[fy]
        be = min(10 * tp / B0 * fy0 * tp / (fi * t), 1.0) * b
        bf.append(r * fi * t * (2 * h - 4 * t + b + be))
        ps.append(r * fy0 * tp / math.sqrt(3) / math.sin(a) * (2 * h / math.sin(a) + b + min(10 * tp / B0, 1.0) * b))
    F = S["N"]
    c = 0 if F[0] < 0 else 1
    V = abs(F[c]) * math.sin(an[c]) if (F[c] < 0 or F[0] >= 0) else 0.0
    Vpl = Av * fy0 / math.sqrt(3)
    N0Rd = 0.0 if V / Vpl > 1 else r * fy0 * (A - Ae + Ae * math.sqrt(1 - (V / Vpl) ** 2))
    Ngap = S["N0"] + (abs(F[1 - c]) * math.cos(an[1 - c]) if S["N0"] < 0 else abs(F[c]) * math.cos(an[c]))
    rd = [min(x) for x in zip(cff, cs, bf)]
    if beta <= 1 - 1 / gam:
        rd = [min(x, y) for x, y in zip(rd, ps)]
    ut = [abs(f) / x if x > 0 else math.inf for f, x in zip(F, rd)] + [abs(Ngap) / N0Rd if N0Rd > 0 else math.inf]
    return {"cff": cff, "cs": cs, "bf": bf, "ps": ps, "N0Rd": N0Rd, "u": ut, "Ngap": Ngap, "V": V}


def ref_y(S):
    H0, B0, T0 = S["chord"]
    fy0, fi = FY[S["fy0"]], FY[S["fy"][0]]
    r = reduction(fy0, S["r"])
    (h, b, t), a, N1 = S["braces"][0], math.radians(S["angles"][0]), S["N"][0]
    beta, gam, eta = b / B0, B0 / 2 / T0, h / B0
    s = math.sin(a)
    k = kn(S, beta)
    A, W, Av = section(H0, B0, T0, fy0)

    def face(be):
        be = 0.99 if be >= 1 else be
        return r * k * fy0 * T0 ** 2 / ((1 - be) * s) * (2 * eta / s + 4 * math.sqrt(1 - be))
    fb = fy0
    if N1 < 0:
        lam = 3.46 * (H0 / T0 - 2) * math.sqrt(1 / s) / (math.pi * math.sqrt(E_STEEL / fy0))
        phi = 0.5 * (1 + 0.49 * (lam - 0.2) + lam * lam)
        chi = 1.0 if lam <= 0.2 else min(1.0, 1 / (phi + math.sqrt(phi * phi - lam * lam)))
        fb = chi * fy0 if S["kind"] == "Y" else 0.8 * chi * fy0 * s
    side = r * k * fb * T0 / s * (2 * h / s + 10 * T0)
    if S["kind"] == "X" and math.cos(a) > h / H0:
        side = min(side, r * fy0 * Av / math.sqrt(3) / s)
    bf = r * fi * t * (2 * h - 4 * t + 2 * min(10 * T0 / B0 * fy0 * T0 / (fi * t), 1.0) * b)
    ps = r * fy0 * T0 / math.sqrt(3) / s * (2 * h / s + 2 * min(10 * T0 / B0, 1.0) * b)
    if beta < 0.85:
        rd = face(beta)
    else:
        rd = min(face(0.85) + (beta - 0.85) / 0.15 * (side - face(0.85)), bf)
        if beta <= 1 - 1 / gam:
            rd = min(rd, ps)
    return {"cff": face(beta), "side": side, "bf": bf, "ps": ps, "u": abs(N1) / rd if rd > 0 else (math.inf if N1 else None)}


# ------------------------------------------------------------------ real joints
class J:
    def __init__(self, **kw):
        R, Q, SM = mods()
        S = dict(kind="K", chord=[150.0, 150.0, 8.0], fy0="S355", braces=[[80.0, 80.0, 5.0], [80.0, 80.0, 4.0]], fy=["S355", "S355"], angles=[45.0, 45.0], gap=30.0, N0=0.0, M0=0.0, N=[-2e5, 2e5], r=0, tp=0, members=False)
        S.update(kw)
        self.S = S
        n = 2 if S["kind"] == "K" else 1
        sec = []
        for d, fy, N in list(zip(S["braces"], S["fy"], S["N"]))[:n]:
            q = Q.RHS(*d, fy=FY[fy])
            q.material = fy
            q.Ned = N
            sec.append(q)
        ch = Q.RHS(*S["chord"], fy=FY[S["fy0"]])
        ch.material = S["fy0"]
        br = sec
        if S["members"]:
            ch = SM.SteelMember(ch, length=5000.0)
            br = []
            for q, N in zip(sec, S["N"]):
                m = SM.SteelMember(q, length=2000.0)
                m.add_section(ned=N, loc=0.0)
                m.add_section(ned=0.9 * N, loc=1.0)
                br.append(m)
        if n == 2:
            self.j = R.RHSKGapJoint(ch, br, list(S["angles"]), S["gap"], N0=S["N0"], M0=S["M0"])
        else:
            self.j = {"Y": R.RHSYJoint, "X": R.RHSXJoint}[S["kind"]](ch, br[0], S["angles"][0], N0=S["N0"], M0=S["M0"])
        self.j.r = S["r"]

    def edit(self, k, v):
        """change one datum of the joint in the way a user would"""
        S, j = self.S, self.j
        if k in ("gap", "N0", "M0", "r"):
            setattr(j, k, v)
        elif k == "angle":
            i, a = v
            S["angles"] = [a if q == i else x for q, x in enumerate(S["angles"])]
            if S["kind"] == "K":
                j.angles[i] = a
            else:
                j.angle = a
            return
        elif k == "N":
            for i, x in enumerate(v[:2 if S["kind"] == "K" else 1]):
                (j.braces[i] if S["kind"] == "K" else j.brace).ned = x
        elif k == "chord":
            j.chord.profile.H, j.chord.profile.B, j.chord.profile.T = v
        elif k == "fy0":
            j.chord.profile.material = v
        elif k == "brace":
            p = (j.braces[0] if S["kind"] == "K" else j.brace).profile
            p.H, p.B, p.T = v
            S["braces"] = [list(v)] + S["braces"][1:]
            return
        elif k == "fy":
            for i, x in enumerate(v[:2 if S["kind"] == "K" else 1]):
                (j.braces[i] if S["kind"] == "K" else j.brace).profile.material = x
        elif k == "tp":
            j.add_chord_face_plate(tp=v)
            v = max(v, 2 * max(b[2] for b in S["braces"]))
            S["tp"] = v
            S["plate"] = min_plate(S)  # the plate is not resized afterwards
            return
        S[k] = list(v) if isinstance(v, (list, tuple)) else v


def min_plate(S):
    """least length and width of a plate added to the chord face (EN 1993-1-8, table 7.18)"""
    foot = [b[0] / math.sin(math.radians(a)) for b, a in zip(S["braces"], S["angles"])]
    return [1.5 * (sum(foot) + S["gap"]), S["chord"][1] - 2 * S["chord"][2]]


def judge(M, ctx, where):
    S, j = M.S, M.j
    ctx.step()
    if S["kind"] == "K":
        w = ref_k(S)
        if S["tp"]:
            p = j.chord_face_plate
            ctx.eq([float(p["lp"]), float(p["bp"])], S["plate"], "plate-size", f"{where}: least length and width of the chord face plate", 1e-9, 1e-9)
            # the stress function of a reinforced chord face may use the slenderness of the plate or that of the chord
            f = math.sqrt(S["tp"] / S["chord"][2])
            got = [float(x) for x in j.chord_face_failure()]
            ctx.expect(all(abs(g - x) < 1e-6 * x or abs(g * f - x) < 1e-6 * x for g, x in zip(got, w["cff"])), "plate", f"{where}: chord face failure with a plate {got} {w['cff']}")
            ctx.eq([float(x) for x in j.brace_failure()] + [float(x) for x in j.punching_shear()], w["bf"] + w["ps"], "plate", f"{where}: brace failure and punching shear with a plate", 1e-6, 1e-6)
            return
        ctx.eq([float(x) for x in j.chord_face_failure()], w["cff"], "chord-face", f"{where}: chord face failure", 1e-6, 1e-6)
        cs, n0 = j.chord_shear()
        ctx.eq([float(x) for x in cs], w["cs"], "chord-shear", f"{where}: chord shear", 1e-6, 1e-6)
        ctx.eq(float(n0), w["N0Rd"], "chord-axial", f"{where}: axial resistance of the chord in the gap", 1e-6, 1e-3)
        ctx.eq([float(x) for x in j.brace_failure()], w["bf"], "brace", f"{where}: brace failure", 1e-6, 1e-6)
        ctx.eq([float(x) for x in j.punching_shear()], w["ps"], "punching", f"{where}: punching shear", 1e-6, 1e-6)
        ctx.eq([float(j.N0gap), float(j.V0gap)], [w["Ngap"], w["V"]], "gap-forces", f"{where}: forces of the chord in the gap", 1e-9, 1e-6)
        u = [float(x) for x in j.design()]
        e = 0.5 * sum(b[0] / math.sin(math.radians(a)) for b, a in zip(S["braces"], S["angles"])) + S["gap"]
        sa = [math.radians(a) for a in S["angles"]]
        ctx.eq(float(j.eccentricity()), e * math.sin(sa[0]) * math.sin(sa[1]) / math.sin(sum(sa)) - 0.5 * S["chord"][0], "eccentricity", f"{where}: eccentricity", 1e-9, 1e-9)
        ctx.eq(u, w["u"], "utilization", f"{where}: utilization of both braces and of the chord in the gap", 1e-6, 1e-9)
    else:
        w = ref_y(S)
        ctx.eq(float(j.N1), S["N"][0], "brace-force", f"{where}: force of the brace", 1e-9, 1e-9)
        ctx.eq(float(j.chord_face_failure()), w["cff"], "chord-face", f"{where}: chord face failure", 1e-6, 1e-6)
        ctx.eq(float(j.chord_web_buckling()), w["side"], "side-wall", f"{where}: side wall of the chord", 1e-6, 1e-6)
        ctx.eq(float(j.brace_failure()), w["bf"], "brace", f"{where}: brace failure", 1e-6, 1e-6)
        ctx.eq(float(j.punching_shear()), w["ps"], "punching", f"{where}: punching shear", 1e-6, 1e-6)
        if w["u"] is not None:
            u = float(j.design())
            ctx.eq(u, w["u"], "utilization", f"{where}: utilization of the brace", 1e-6, 1e-9)
        u = [w["u"]]
    ctx.state(canon([round(float(x), 9) if x is not None and x < 1e12 else None for x in u]))


CHORDS = [[100.0, 100.0, 5.0], [150.0, 150.0, 8.0], [120.0, 200.0, 6.0], [200.0, 100.0, 12.0], [60.0, 60.0, 10.0], [300.0, 300.0, 10.0]]
WIDTHS = (0.3, 0.5, 0.8, 0.85, 0.9, 0.96, 1.0)


def stress(chord, fy, c):
    A, W, _ = section(*chord, 0)
    return c[0] * A * FY[fy], c[1] * W * FY[fy]


CHORD_FORCES = ((0.0, 0.0), (-0.5, 0.0), (-0.9, 0.0), (0.6, 0.0), (-0.5, 0.4), (-0.6, -0.9), (0.4, 0.8), (-1.0, 0.0))


def ys(tier):
    mats = [("S355", "S355"), ("S420", "S355"), ("S700", "S420")] + ([("S235", "S355"), ("S500", "S500"), ("S355", "S700")] if tier != "quick" else [])
    for kind, ch, w, ang, (f0, f1) in itertools.product(("Y", "X"), CHORDS, WIDTHS, (90.0, 60.0, 45.0, 30.0), mats):
        for hr, t in ((1.0, 4.0), (0.5, 8.0), (1.6, 3.0)) if tier != "quick" else ((1.0, 4.0), (0.5, 8.0)):
            if w * ch[1] * hr < 2 * 3 * t:
                continue
            yield {"kind": kind, "chord": ch, "braces": [[round(w * ch[1] * hr, 3), round(w * ch[1], 3), t]], "angles": [ang], "fy0": f0, "fy": [f1]}


def run_y(case, ctx):
    for c, N in itertools.product(CHORD_FORCES, (-1e5, 1e5, 0.0)):
        n0, m0 = stress(case["chord"], case["fy0"], c)
        for mem in (False, True):
            judge(J(**case, N0=n0, M0=m0, N=[N], members=mem), ctx, f"{case} chord {c} N1={N:g} {'members' if mem else 'profiles'}")
    M = J(**case, N0=0.0, M0=0.0, N=[-1e5])
    M.j.N1 = 3e4  # a force given separately
    M.S["N"] = [3e4]
    judge(M, ctx, f"{case} force of the brace given separately")


def ks(tier):
    mats = [("S355", ["S355", "S355"]), ("S420", ["S355", "S420"]), ("S700", ["S420", "S700"])] + ([("S500", ["S500", "S355"])] if tier != "quick" else [])
    for ch in CHORDS:
        ws = [(0.4, 0.4), (0.8, 0.6), (1.0, 1.0), (0.6, 0.9)]
        for (w1, w2), an, gap, (f0, f1), hr in itertools.product(ws, ([45.0, 45.0], [30.0, 60.0], [90.0, 40.0], [60.0, 60.0]), (10.0, 40.0) if tier == "quick" else (6.0, 20.0, 40.0, 90.0), mats, (1.0, 0.6)):
            br = [[round(w * ch[1] * hr, 3), round(w * ch[1], 3), t] for w, t in ((w1, 4.0), (w2, 3.0))]
            if min(br[0][:2]) < 24 or min(br[1][:2]) < 18:
                continue
            yield {"kind": "K", "chord": ch, "braces": br, "angles": an, "gap": gap, "fy0": f0, "fy": f1}


def run_k(case, ctx):
    H0, B0, T0 = case["chord"]
    V = section(H0, B0, T0, 0)[2] * FY[case["fy0"]] / math.sqrt(3)
    an = [math.radians(a) for a in case["angles"]]
    for c, v, flip, mem in itertools.product(CHORD_FORCES, (0.0, 0.3, 0.95, 1.05), (False, True), (False, True)):
        n0, m0 = stress(case["chord"], case["fy0"], c)
        s = -1 if flip else 1
        N = [-s * v * V / math.sin(an[0]), s * v * V / math.sin(an[1])]
        judge(J(**case, N0=n0, M0=m0, N=N, members=mem), ctx, f"{case} chord {c} V={v} {'tension first' if flip else 'compression first'} {'members' if mem else 'profiles'}")


# ------------------------------------------------------------------ histories
def alphabet(kind):
    al = [("N0", -6e5), ("N0", 4e5), ("M0", 2e7), ("r", 0.7), ("angle", [0, 35.0]), ("chord", [180.0, 180.0, 6.0]), ("chord", [90.0, 110.0, 10.0]), ("fy0", "S420"), ("fy0", "S700"), ("brace", [100.0, 70.0, 6.0]), ("brace", [60.0, 90.0, 4.0]),
          ("fy", ["S420", "S500"]), ("N", [3e5, -3e5]), ("N", [-1e5, 1e5])]
    if kind == "K":
        al += [("gap", 12.0), ("gap", 60.0), ("angle", [1, 70.0]), ("tp", 5.0)]
    return al


def hist(tier):
    n = 2 if tier == "quick" else 3
    for kind, mem in itertools.product(("K", "Y", "X"), (False, True)):
        for w in itertools.product(alphabet(kind), repeat=n):
            yield {"kind": kind, "members": mem, "edits": [list(e) for e in w]}


def run_hist(case, ctx):
    M = J(kind=case["kind"], members=case["members"], braces=[[90.0, 90.0, 5.0], [80.0, 80.0, 4.0]], chord=[100.0, 100.0, 6.0])
    judge(M, ctx, "start")
    where = []
    for e in case["edits"]:
        M.edit(*e)
        where.append(e)
        judge(M, ctx, f"{case['kind']} after {where}")


def infos(tier):
    for kind, N, mem in itertools.product("KYX", (-1e5, 0.0, 1e5), (False, True)):
        yield {"kind": kind, "N": [N, -N], "members": mem}


def run_info(case, ctx):
    """printing a joint works and changes nothing"""
    M = J(**case)
    M.j.info()
    judge(M, ctx, f"{case} after info()")


# ------------------------------------------------------------------ lines
def lines(tier):
    pts = [(x, y) for x in (0.0, 2.0, -1.0) for y in (0.0, 3.0, 1.0)]
    for p, q in itertools.permutations(pts, 2):
        yield {"p": list(p), "q": list(q)}


def run_line(case, ctx):
    R = mods()[0]
    p, q = case["p"], case["q"]
    L = math.hypot(q[0] - p[0], q[1] - p[1])
    v = [(q[0] - p[0]) / L, (q[1] - p[1]) / L]
    for a in (R.Line(p1=p, p2=q), R.Line(p1=p, v=v)):
        for x in ((0.0, 0.0), (5.0, -2.0), (1.0, 1.0)):
            d, near = a.distance(list(x))
            t = (x[0] - p[0]) * v[0] + (x[1] - p[1]) * v[1]
            w = [p[0] + t * v[0], p[1] + t * v[1]]
            ctx.eq([float(d)] + [float(z) for z in near], [math.hypot(x[0] - w[0], x[1] - w[1])] + w, "line", f"{case}: distance from {x}", 1e-9, 1e-9)
        for r, u in (((1.0, 0.5), (1.0, 0.0)), ((0.0, 1.0), (0.0, 1.0)), ((2.0, 2.0), (0.6, -0.8))):
            D = v[0] * -u[1] + u[0] * v[1]
            if abs(D) < 1e-9:
                continue
            t = ((r[0] - p[0]) * -u[1] + u[0] * (r[1] - p[1])) / D
            _, x = a.intersect(R.Line(p1=list(r), v=list(u)))
            ctx.eq([float(z) for z in x], [p[0] + t * v[0], p[1] + t * v[1]], "line", f"{case}: intersection with {r} {u}", 1e-9, 1e-9)
            ctx.step()
    for h0, h1, h2, a1, a2, g in itertools.product((100.0, 150.0), (60.0,), (60.0, 80.0), (45.0, 60.0), (35.0, 90.0), (10.0, 40.0)):
        s1, s2, s = math.sin(math.radians(a1)), math.sin(math.radians(a2)), math.sin(math.radians(a1 + a2))
        ctx.eq(float(R.eccentricity(h0, h1, h2, a1, a2, g)), (h1 / 2 / s1 + h2 / 2 / s2 + g) * s1 * s2 / s - h0 / 2, "eccentricity", f"{(h0, h1, h2, a1, a2, g)}", 1e-9, 1e-9)
    ctx.state(canon([v]))


def families(tier):
    return [
        Family("yx", lambda: ys(tier), run_y, "every Y and X joint: chord x brace width and height x angle x steel, with every sign pattern of chord and brace forces", "2 x 6 x 7 x 4 x 3 (6) x 2 (3), 48 force patterns"),
        Family("k", lambda: ks(tier), run_k, "every K gap joint: chord x brace widths x angles x gap x steel, with every pattern of chord forces and shear in the gap", "6 x 4 x 4 x 2 (4) x 3 (4) x 2, 128 force patterns"),
        Family("histories", lambda: hist(tier), run_hist, "every history of edits of a joint, judged after every edit", "3 x 2 x 14..18 edits, depth 2 (3)"),
        Family("info", lambda: infos(tier), run_info, "printing every kind of joint", "3 x 3 x 2"),
        Family("lines", lambda: lines(tier), run_line, "lines and eccentricities", "72"),
    ]
