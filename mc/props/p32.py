"""P32: composite steel and concrete members (EN 1994-1-1) for the current parts.

The reference knows the shapes only: every area, inertia, plastic moment and neutral axis is
obtained by integrating over horizontal strips (Gauss points; the rounded corners with a
trigonometric substitution) and, for plastic states, by bisection on the axial equilibrium.
"""
import importlib
import itertools
import math
import re
from ..core import Family, canon, histories, quiet

GP = []


def _gauss(n=40):
    import numpy as np
    x, w = np.polynomial.legendre.leggauss(n)
    return list(zip(x.tolist(), w.tolist()))


def gauss(f, a, b):
    if not GP:
        GP.extend(_gauss())
    if b <= a:
        return 0.0
    c, d = 0.5 * (a + b), 0.5 * (b - a)
    return d * sum(w * f(c + d * x) for x, w in GP)


class RoundRect:
    """rectangle b x h (h along z) with corner radius r, centred at the origin"""

    def __init__(self, b, h, r):
        self.b, self.h, self.r = b, h, r

    def integral(self, f, lo=-math.inf, hi=math.inf):
        """integral of f(z) over the part lo < z < hi"""
        z0 = self.h / 2 - self.r
        s = gauss(lambda z: f(z) * self.b, max(lo, -z0), min(hi, 0.0)) + gauss(lambda z: f(z) * self.b, max(lo, 0.0), min(hi, z0))
        if self.r > 0:
            for sg in (1, -1):
                a, b = (max(lo, z0), min(hi, self.h / 2)) if sg > 0 else (max(-hi, z0), min(-lo, self.h / 2))
                if b <= a:
                    continue
                ta, tb = math.asin((a - z0) / self.r), math.asin(min((b - z0) / self.r, 1.0))
                s += gauss(lambda t: f(sg * (z0 + self.r * math.sin(t))) * (self.b - 2 * self.r + 2 * self.r * math.cos(t)) * self.r * math.cos(t), ta, tb)
        return s


def concrete(name, RH=50):
    fck = float(name[1:].split("/")[0])
    return {"fck": fck, "Ecm": 22e3 * ((fck + 8) / 10) ** 0.3, "fcm": fck + 8, "RH": RH}


def creep(c, h0, t, t0):
    """EN 1992-1-1, Annex B"""
    fcm, RH = c["fcm"], c["RH"]
    a = [(35 / fcm) ** e if fcm > 35 else 1.0 for e in (0.7, 0.2, 0.5)]
    f_rh = (1 + (1 - RH / 100) / (0.1 * h0 ** (1 / 3)) * a[0]) * a[1]
    bh = min(1.5 * (1 + (0.012 * RH) ** 18) * h0 + 250 * a[2], 1500 * a[2])
    return f_rh * 16.8 / math.sqrt(fcm) / (0.1 + t0 ** 0.2) * ((t - t0) / (bh + t - t0)) ** 0.3


def run_creep(case, ctx):
    from metku.eurocodes.en1992 import constants
    c = constants.Concrete(case["c"])
    c.RH = case["RH"]
    d = concrete(case["c"], case["RH"])
    ctx.eq([c.fck, c.fcm, c.Ecm, c.fcd(a_cc=1.0), c.fcd(), c.nu_cracked()], [d["fck"], d["fcm"], d["Ecm"], d["fck"] / 1.5, 0.85 * d["fck"] / 1.5, 0.6 * (1 - d["fck"] / 250)], "concrete", str(case), 1e-9)
    last = -1
    for h0 in case["h0"]:
        for t0 in case["t0"]:
            last = -1
            for t in (t0, t0 + 1, t0 + 28, 365 + t0, 1e4, 1e8):
                got = c.creep_coefficient(h0, t, t0)
                ctx.eq(got, creep(d, h0, t, t0), "creep", f"{case} h0={h0} t={t} t0={t0}", 1e-9)
                ctx.expect(got >= last, "creep", f"{case}: creep decreases with time")
                last = got
    ctx.state(canon(last))


# ---------------------------------------------------------------- shear studs
def run_stud(case, ctx):
    importlib.import_module("metku.sections.steel.RHS")
    from metku.eurocodes.en1994 import en1994_1_1 as m
    from metku.eurocodes.en1992 import constants
    for key in (19, 22, 25):
        for L in case["L"]:
            for fu in (360, 400, 450, 500):
                s = m.ShearStud(m.S3L_Studs[key], L, 350, fu)
                for c in CONC:
                    d, k = m.S3L_Studs[key]["D"], concrete(c)
                    if L < 3 * d:
                        continue
                    al = 1.0 if L / d > 4 else 0.2 * (L / d + 1)
                    want = min(0.8 * fu * math.pi * d * d / 4, 0.29 * al * d * d * math.sqrt(k["fck"] * k["Ecm"])) / 1.25
                    for v in (False, True):
                        ctx.eq(s.PRd(k["fck"], k["Ecm"], v), want, "stud", f"stud {key} L={L} fu={fu} {c}", 1e-9)
                    ctx.state((key, canon(want, 5)))


# ---------------------------------------------------------------- columns
CONC = ["C20/25", "C25/30", "C30/37", "C40/50", "C50/60"]


def outer_radius(t):
    return 2.0 * t if t <= 6 else 2.5 * t if t <= 10 else 3.0 * t


def col_new(d):
    """d: H B T fy conc bar (diameter or None) pos (None or [y, z]) L lcr ned nged med n"""
    importlib.import_module("metku.sections.steel.RHS")
    from metku.eurocodes.en1992 import en1992_1_1, constants
    from metku.sections.composite.composite_column import ConcreteFilledTube
    from metku.sections.steel.RHS import RHS
    p = ConcreteFilledTube(d["L"], RHS(d["H"], d["B"], d["T"], d["fy"]), constants.Concrete(d["conc"]), None if d["bar"] is None else en1992_1_1.Rebar(d["bar"], "B500B"),
                           rebar_pos=None if d["pos"] is None else list(d["pos"]))
    p.nbars = d.get("n", 4)
    p.lcr = list(d.get("lcr", [1.0, 1.0]))
    p.ned, p.nged, p.med = d.get("ned", 0.0), d.get("nged", 0.0), list(d.get("med", [0.0, 0.0]))
    return p


_PL = {}
_GEO = {}


def plastic(O, I, fy, fcd, fsd, nets, rb, H, T, R):
    def NM(a):
        """compression above z = a; axial force and moment about the centre"""
        N = M = 0.0
        for f, g in ((lambda z: 1.0, 0), (lambda z: z, 1)):
            up, dn = I.integral(f, lo=a), I.integral(f, hi=a)
            st = fy * ((O.integral(f, lo=a) - up) - (O.integral(f, hi=a) - dn))
            cc = fcd * up
            for z, A in nets:
                w = A * (z if g else 1.0)
                cc -= fcd * w if z > a else 0.0
                st += fsd * w * (1 if z > a else -1)
            if g:
                M = cc + st
            else:
                N = cc + st
        return N, M
    lo, hi = -H / 2 + T, H / 2 - T
    if NM(lo)[0] > 0 > NM(hi)[0]:
        for _ in range(60):
            mid = 0.5 * (lo + hi)
            lo, hi = (mid, hi) if NM(mid)[0] > 0 else (lo, mid)
        a = 0.5 * (lo + hi)
        cut = any(abs(z - a) < rb + 1.0 for z, A in nets if A > 0)
        if not cut and 0 <= a < H / 2 - R:
            return NM(a)[1], a
    return None


def col_ref(d):
    """everything from the description; d['pos'] must be given"""
    H, B, T, fy = d["H"], d["B"], d["T"], float(d["fy"])
    R = outer_radius(T)
    c, n = concrete(d["conc"]), d.get("n", 4)
    ph = d["bar"] or 0.0
    ab, ib = math.pi * ph * ph / 4, math.pi * ph ** 4 / 64
    out = {"u": H / 2 - T - d["pos"][1] - ph / 2, "v": B / 2 - T - d["pos"][0] - ph / 2}
    As = n * ab
    res = {}
    for ax, (w, h, e) in {"y": (B, H, d["pos"][1]), "z": (H, B, d["pos"][0])}.items():
        O, I = RoundRect(w, h, R), RoundRect(w - 2 * T, h - 2 * T, R - T)
        if (w, h, T) not in _GEO:
            _GEO[w, h, T] = [S.integral(f) for S in (O, I) for f in (lambda z: 1.0, abs, lambda z: z * z)]
        g = _GEO[w, h, T]
        res[ax] = {"Ia": g[2] - g[5], "Is": n * (ib + ab * e * e)}
        res[ax]["Ic"] = g[5] - res[ax]["Is"]
        if ax == "y":
            out["Aa"] = g[0] - g[3]
            out["Ac"] = g[3] - As
            out["Wps"] = n * ab * e
            out["Wpc"] = g[4] - out["Wps"]
            out["Wpa"] = g[1] - g[4]
            out["O"], out["I"] = O, I
    out.update(As=As, Ia=res["y"]["Ia"], Is=res["y"]["Is"], Ic=res["y"]["Ic"])
    fcd, fsd = c["fck"] / 1.5, 500.0 / 1.15
    out["NaRd"], out["NpmRd"] = fy * out["Aa"], fcd * out["Ac"]
    out["NplRd"] = fy * out["Aa"] + fsd * As + fcd * out["Ac"]
    out["NplRk"] = fy * out["Aa"] + 500.0 * As + c["fck"] * out["Ac"]
    out["delta"], out["rho"] = out["NaRd"] / out["NplRd"], As / out["Ac"]
    out["Mplmax"] = fy * out["Wpa"] + fsd * out["Wps"] + 0.5 * fcd * out["Wpc"]
    ned, nged = abs(d.get("ned", 0.0)), abs(d.get("nged", 0.0))
    phi = creep(c, 1e11, 1e11, 28)
    out["Eceff"] = c["Ecm"] / (1 + (nged / ned if ned else 0.0) * phi)
    curve = 0.21 if out["rho"] <= 0.03 else 0.34
    for i, ax in enumerate("yz"):
        r = res[ax]
        L = d["L"] * d.get("lcr", [1.0, 1.0])[i]
        e1 = 210e3 * (r["Ia"] + r["Is"]) + 0.6 * out["Eceff"] * r["Ic"]
        e2 = 0.9 * (210e3 * (r["Ia"] + r["Is"]) + 0.5 * out["Eceff"] * r["Ic"])
        out["EIeff" + ax], out["EIeffII" + ax] = e1, e2
        out["Ncr" + ax], out["Ncreff" + ax] = math.pi ** 2 * e1 / L ** 2, math.pi ** 2 * e2 / L ** 2
        sl = math.sqrt(out["NplRk"] / out["Ncr" + ax])
        f = 0.5 * (1 + curve * (sl - 0.2) + sl * sl)
        out["sl" + ax], out["NbRd" + ax] = sl, min(1.0, 1 / (f + math.sqrt(f * f - sl * sl))) * out["NplRd"]
    out["e0"] = d["L"] / (300 if out["rho"] <= 0.03 else 200)
    # pure bending: bars as circles, cut bars left out of the comparison
    ez, rb = d["pos"][1], ph / 2
    nets = [(s * ez, n / 2 * ab) for s in (1, -1)]
    if (k := (H, B, T, fy, fcd, ph, n, tuple(d["pos"]))) not in _PL:
        _PL[k] = plastic(out["O"], out["I"], fy, fcd, fsd, nets, rb, H, T, R)
    if _PL[k]:
        out["Mpl"], out["hn"] = _PL[k]
    # simplified design of members in compression and uniaxial bending
    M1, M2 = sorted(d.get("med", [0.0, 0.0]), key=abs)
    out["M1"], out["M2"] = M1, M2
    if "Mpl" in out and ned:
        Ncr = out["Ncreffy"]
        m0 = ned * out["e0"]
        if Ncr < 10 * ned:
            if ned < 0.9 * Ncr:
                be = max(0.66 + 0.44 * M1 / M2, 0.44) if M2 else 0.0
                MEd = max((be * abs(M2) + m0) * max(1.0, 1 / (1 - ned / Ncr)), abs(M2))
            else:
                MEd = None
        else:
            MEd = m0 + abs(M2)
        cd, cc = ned / out["NplRd"], out["NpmRd"] / out["NplRd"]
        if MEd is not None and cd < 0.95:
            mu = min(1.0, (1 - cd) / (1 - cc))
            out["U"] = MEd / (mu * out["Mpl"]) / (0.9 if fy <= 355 else 0.8)
    return out


def col_check(ctx, p, d, key, what):
    w = col_ref(d)
    eq = lambda got, n, tol=1e-7: ctx.eq(got, w[n], key, f"{what}: {n}", tol)
    if d["bar"]:
        eq(p.u, "u"), eq(p.v, "v")
    ctx.eq([p.y_rebar, p.z_rebar], d["pos"], key, f"{what}: position of the bars", 1e-9)
    for n, g in (("As", p.As), ("Aa", p.Aa), ("Ac", p.Ac), ("Ia", p.Ia), ("Is", p.Is), ("Ic", p.Ic), ("Wpa", p.Wpa), ("Wps", p.Wps), ("Wpc", p.Wpc), ("NaRd", p.NaRd()), ("NpmRd", p.NpmRd()),
                 ("NplRd", p.NplRd()), ("NplRk", p.NplRk()), ("delta", p.steel_contribution_ratio()), ("rho", p.reinforcement_ratio()), ("Mplmax", p.Mpl_max_Rd()), ("Eceff", p.Eceff), ("M1", p.M1), ("M2", p.M2)):
        ctx.eq(g, w[n], key, f"{what}: {n}", 1e-7, 1e-3 if d["bar"] is None else 1e-6)
    ctx.eq(p.EIa, 210e3 * w["Ia"], key, f"{what}: EIa", 1e-7)
    ctx.eq(p.EIs, 210e3 * w["Is"], key, f"{what}: EIs", 1e-7)
    c = concrete(d["conc"])
    ctx.eq([p.EAc, p.EIc, p.NEd], [c["Ecm"] * w["Ac"], c["Ecm"] * w["Ic"], abs(d.get("ned", 0.0))], key, f"{what}: EAc, EIc, NEd", 1e-7)
    ctx.eq(p.weight_per_length, (7850 * w["Aa"] * 9.81e-3 + 24 * w["Ac"] + 7850 * w["As"] * 9.81e-3) * 1e-6, key, f"{what}: weight", 1e-7)
    for ax in "yz":
        for n, f in (("EIeff", p.EIeff), ("EIeffII", p.EIeffII), ("Ncr", p.Ncr), ("Ncreff", p.Ncreff), ("sl", p.slenderness), ("NbRd", p.NbRd)):
            ctx.eq(f(ax), w[n + ax], key, f"{what}: {n} about {ax}", 1e-7)
    if w["rho"] <= 0.06:
        eq(p.e0(), "e0")
    ctx.state(canon([w["Ac"], w["Ic"], w["NbRdy"], w["NbRdz"]], 5))
    if "Mpl" in w:
        eq(p.MplRd(), "Mpl", 1e-6)
        ctx.state(canon(w["Mpl"], 5))
    if "U" in w and w["slz"] < 3:
        with quiet() as buf:
            p.design(True)
        m = re.search(r"Utilization ratio:\s*([-+0-9.einf]+)", buf.getvalue())
        if ctx.expect(m is not None, key, f"{what}: design does not report the utilisation ratio") :
            ctx.eq(float(m.group(1)), w["U"], key + "-design", f"{what}: utilisation of compression and bending", 1e-6, 6e-4)


def base(**k):
    d = {"H": 300, "B": 200, "T": 8.0, "fy": 355, "conc": "C40/50", "bar": 20, "pos": None, "L": 4000.0}
    d.update(k)
    return d


def default_pos(d):
    ph = d["bar"] or 0.0
    return [d["B"] / 2 - d["T"] - 30 - ph / 2, d["H"] / 2 - d["T"] - 30 - ph / 2]


def columns(deep):
    tubes = [(100, 100, 4.0), (150, 100, 6.0), (100, 150, 6.0), (200, 200, 8.0), (300, 200, 8.0), (200, 300, 10.0), (300, 300, 12.5)] + ([(120, 80, 5.0), (250, 150, 7.1), (400, 200, 16.0)] if deep else [])
    for (H, B, T), fy, conc, bar in itertools.product(tubes, (235, 275, 355, 420) if deep else (355, 420), CONC if deep else CONC[::2], (None, 8, 12, 20, 32)):
        yield {"d": base(H=H, B=B, T=T, fy=fy, conc=conc, bar=bar)}


FORCES = [(0.0, 0.0, (0.0, 0.0)), (2e5, 0.0, (1e7, 0.0)), (2e5, 2e5, (1e7, 2e7)), (-4e5, -1e5, (-2e7, 1e7)), (8e5, 5e5, (-1e7, -1e7)), (1.5e6, 1e6, (0.0, 0.0)), (5e4, 2e4, (3e6, -6e6)), (3e6, 1e6, (5e7, 4e7))]


def run_col(case, ctx):
    """the same tube at every length, force state and place of the bars"""
    d = dict(case["d"])
    poss = [None]
    if d["bar"]:
        m = [d["B"] / 2 - d["T"], d["H"] / 2 - d["T"]]
        poss += [[0.5 * m[0], 0.5 * m[1]], [0.7 * m[0], 0.1 * m[1]], [0.2 * m[0], m[1] - d["bar"]]]
    for pos in poss:
        e = dict(d, pos=pos)
        try:
            p = col_new(e)
        except Exception as x:
            ctx.fail("column", f"{e}: {type(x).__name__}: {x}")
            return
        e["pos"] = default_pos(d) if pos is None else pos
        for L, lcr in ((1500.0, [1.0, 1.0]), (4000.0, [1.0, 0.7]), (9000.0, [2.0, 0.5])):
            for ned, nged, med in FORCES:
                e.update(L=L, lcr=lcr, ned=ned, nged=nged, med=list(med))
                p.length, p.lcr, p.ned, p.nged, p.med = L, list(lcr), ned, nged, list(med)
                col_check(ctx, p, e, "column", f"{e}")


COLOPS = ["tube", "H", "T", "fy", "conc", "bar", "u", "v", "pos", "n8", "L", "lcr", "N", "M", "q"]


def run_colhist(case, ctx):
    importlib.import_module("metku.sections.steel.RHS")
    from metku.eurocodes.en1992 import en1992_1_1, constants
    from metku.sections.steel.RHS import RHS
    d = base(ned=5e5, nged=2e5, med=[1e7, 3e7])
    p = col_new(d)
    d["pos"] = default_pos(d)
    for op in case["ops"]:
        ph = d["bar"]
        if op == "tube":
            d.update(H=250, B=250, T=10.0, fy=275)
            p.steel = RHS(250, 250, 10.0, 275)
        elif op == "H":
            d["H"] += 20
            p.steel.H = d["H"]
        elif op == "T":
            d["T"] = 5.0
            p.steel.T = 5.0
        elif op == "fy":
            d["fy"] = 420
            p.steel.material = "S420"
        elif op == "conc":
            d["conc"] = "C25/30"
            p.concrete = constants.Concrete("C25/30")
        elif op == "bar":
            d["bar"] = 12 if ph == 20 else 25
            p.rebar = en1992_1_1.Rebar(d["bar"], "B500B")
        elif op == "u":
            d["pos"] = [d["pos"][0], d["H"] / 2 - d["T"] - 45 - ph / 2]
            p.u = 45
        elif op == "v":
            d["pos"] = [d["B"] / 2 - d["T"] - 50 - ph / 2, d["pos"][1]]
            p.v = 50
        elif op == "pos":
            d["pos"] = [40.0, 60.0]
            p.rebar_pos = [40.0, 60.0]
        elif op == "n8":
            d["n"] = 8
            p.nbars = 8
        elif op == "L":
            d["L"] = 6500.0
            p.length = 6500.0
        elif op == "lcr":
            d["lcr"] = [0.7, 1.5]
            p.lcr = [0.7, 1.5]
        elif op == "N":
            d["ned"], d["nged"] = 1.2e6, 9e5
            p.ned, p.nged = 1.2e6, 9e5
        elif op == "M":
            d["med"] = [-2e7, -1e7]
            p.med = [-2e7, -1e7]
        else:
            col_check(ctx, p, d, "column-history", f"after {case['ops']}")
    col_check(ctx, p, d, "column-history", f"after {case['ops']}")


# ---------------------------------------------------------------- beams
def steel_new(s):
    importlib.import_module("metku.sections.steel.RHS")
    from metku.sections.steel.ISection import IPE, HEA, HEB
    from metku.sections.steel.wi import WISection
    if s[0] == "WI":
        return WISection(s[1], s[2], s[3], s[4], s[5])
    return {"IPE": IPE, "HEA": HEA, "HEB": HEB}[s[0]](s[1], s[2])


def beam_new(d):
    from metku.eurocodes.en1992 import constants
    from metku.sections.composite import composite_beam as m
    c = constants.Concrete(d["conc"])
    slab = m.ConcreteSlab(d["hc"], c) if not d["ha"] else m.CompositeSlab(d["hc"] + d["ha"], c, d["ha"])
    return m.CompositeIBeam(d["L"], steel_new(d["s"]), slab, RH=d["RH"])


def beam_ref(st, d):
    """st: h b tf tw A I fy of the doubly symmetric steel part (plain numbers)"""
    c = concrete(d["conc"], d["RH"])
    hc, hl = d["hc"], d["hc"] + d["ha"]
    be = d.get("b0", 0) + d["L"] / 4
    h, b, tf, tw, A, I, fy = st
    E, w = 210e3, {}
    ya, yc = hl + h / 2, hc / 2
    h0 = 2 * hc
    for k, ec in (("s", c["Ecm"]), ("c", c["Ecm"] / (1 + 1.1 * creep(c, h0, 1e8, d.get("t0", 28))))):
        ea, ec_ = E * A, ec * be * hc
        y = (ea * ya + ec_ * yc) / (ea + ec_)
        # stiffness of the transformed section about its own centroid, over strips
        w[k] = {"EA": ea + ec_, "y": y, "EI": E * I + ea * (ya - y) ** 2 + gauss(lambda z: ec * be * (z - y) ** 2, 0, hc), "ya": abs(ya - y), "yc": abs(yc - y), "Ec": ec}
    w["Ecs"] = c["Ecm"] / (1 + 0.55 * creep(c, h0, 1e8, 1))
    a = ya - yc
    # stiffness of the composite section over that of the parts acting separately
    w["alpha"] = (w["s"]["EI"] - E * I - c["Ecm"] * be * hc ** 3 / 12) / (E * I + c["Ecm"] * be * hc ** 3 / 12)
    sc = 0.85 * 0.85 * c["fck"] / 1.5
    # layers: top, bottom, width, compressive strength, tensile strength
    lay = [(0, hc, be, sc, 0.0), (hl, hl + tf, b, fy, fy), (hl + tf, hl + h - tf, tw, fy, fy), (hl + h - tf, hl + h, b, fy, fy)]
    fil = A - 2 * b * tf - (h - 2 * tf) * tw          # root fillets, counted on the tension side

    def NM(a):
        N = M = 0.0
        for z0, z1, wd, fc, ft in lay:
            m = min(max(a, z0), z1)
            N += wd * (fc * (m - z0) - ft * (z1 - m))
            M += wd * (-fc * (m * m - z0 * z0) / 2 + ft * (z1 * z1 - m * m) / 2)
        N -= fil * fy
        M += fil * fy * (hl + h / 2)
        return N, M
    lo, hi = 0.0, hl + h
    for _ in range(100):
        mid = 0.5 * (lo + hi)
        lo, hi = (lo, mid) if NM(mid)[0] > 0 else (mid, hi)
    w["pna"], w["Mpl"] = hi, NM(hi)[1]
    w.update(Ra=A * fy, Rc=sc * be * hc, beff=be, dist=a, Ac=be * hc, Ic=be * hc ** 3 / 12, ya=ya, yc=yc, Rf=fy * b * tf, Rw=fy * (h - 2 * tf) * tw)
    # between the slab and the flange any place is an equilibrium; the ribs carry nothing
    w["gap"] = abs(w["Ra"] - w["Rc"]) < 1e-6 * w["Ra"]
    return w


def steel_num(p, s):
    """plain numbers of the steel part"""
    if s[0] == "WI":
        h, tw, b, tf, fy = s[1:]
        A = 2 * b * tf + (h - 2 * tf) * tw
        return h, b, tf, tw, A, (b * h ** 3 - (b - tw) * (h - 2 * tf) ** 3) / 12, float(fy)
    h, b, tf, tw, r = p.steel.h, p.steel.b, p.steel.tf, p.steel.tw, p.steel.r
    A = 2 * b * tf + (h - 2 * tf) * tw + (4 - math.pi) * r * r
    hw = h - 2 * tf
    web = RoundRect(tw, hw, 0)
    # four fillets: squares less quarter circles
    If = 4 * (r ** 4 / 12 + r * r * (hw / 2 - r / 2) ** 2) - 4 * ((math.pi / 16 - 4 / (9 * math.pi)) * r ** 4 + math.pi * r * r / 4 * (hw / 2 - r + 4 * r / (3 * math.pi)) ** 2)
    # quarter circle lies with its flat corner away from the root
    If = 4 * gauss(lambda t: (hw / 2 - r + r * math.sin(t)) ** 2 * (r - r * math.cos(t)) * r * math.cos(t), 0, math.pi / 2)
    return h, b, tf, tw, A, (b * h ** 3 - (b - tw) * hw ** 3) / 12 + If, float(s[2])


def beam_check(ctx, p, d, key, what):
    w = beam_ref(steel_num(p, d["s"]), d)
    tol = 1e-6 if d["s"][0] == "WI" else 1e-5
    for k, lt in (("s", None), ("c", "creep")):
        r = w[k]
        ctx.eq([p.EAcom(lt), p.centroid(lt), p.EIcom(lt), p.ya_com(lt), p.yc_com(lt)], [r["EA"], r["y"], r["EI"], r["ya"], r["yc"]], key, f"{what}: composite stiffness ({lt})", tol)
    ctx.eq([p.beff, p.Ac, p.Ic, p.ya, p.yc, p.distance_centroids()], [w["beff"], w["Ac"], w["Ic"], w["ya"], w["yc"], w["dist"]], key, f"{what}: concrete flange", 1e-9)
    ctx.eq([p.Ecm, p.Ecc, p.Ecs, p.n0, p.nC, p.nS], [w["s"]["Ec"], w["c"]["Ec"], w["Ecs"], 210e3 / w["s"]["Ec"], 210e3 / w["c"]["Ec"], 210e3 / w["Ecs"]], key, f"{what}: moduli", 1e-9)
    ctx.eq([p.EAc, p.EIc, p.EAcc, p.EIcc], [w["s"]["Ec"] * w["Ac"], w["s"]["Ec"] * w["Ic"], w["c"]["Ec"] * w["Ac"], w["c"]["Ec"] * w["Ic"]], key, f"{what}: stiffness of concrete", 1e-9)
    ctx.eq(p.composite_coefficient(), w["alpha"], key, f"{what}: composite coefficient", 1e-4)
    ctx.eq([p.Ra(), p.Rc()], [w["Ra"], w["Rc"]], key, f"{what}: resultants", tol)
    if not w["gap"]:
        ctx.eq(float(p.plastic_neutral_axis()), w["pna"], key + "-pna", f"{what}: plastic neutral axis", tol, 1e-3)
    for v in (False, True):
        ctx.eq(float(p.MplRd(v)), w["Mpl"], key + "-Mpl", f"{what}: plastic moment", tol)
    c = 25.0
    ctx.eq(p.slab.concrete_weight() if d["ha"] else p.slab.weight(), c * (d["hc"] + d["ha"]) * 1e-3, key, f"{what}: weight of the slab", 1e-9)
    hl = d["hc"] + d["ha"]
    ctx.state(("c" if w["pna"] <= d["hc"] else "f" if w["pna"] < hl + p.steel.h * 0.06 else "w", canon(w["Mpl"], 4)))


STEELS = [("IPE", 200), ("IPE", 300), ("IPE", 450), ("IPE", 600), ("HEA", 200), ("HEA", 300), ("HEB", 300), ("HEB", 600), ("WI", 300, 6.0, 150, 10.0), ("WI", 800, 10.0, 300, 25.0), ("WI", 1200, 15.0, 400, 12.0), ("WI", 500, 8.0, 400, 40.0)]


def beams(deep):
    for s, fy in itertools.product(STEELS, (235, 355, 420) if deep else (235, 355)):
        for conc in CONC if deep else CONC[::2]:
            for hc, ha in ((60, 0), (140, 0), (50, 50), (100, 45), (25, 120)):
                yield {"s": list(s) + [fy], "conc": conc, "hc": hc, "ha": ha}


def run_beam(case, ctx):
    for L in (1000.0, 2500.0, 6000.0, 12000.0, 24000.0):
        for RH in (40, 80):
            d = dict(case, L=L, RH=RH)
            p = beam_new(d)
            beam_check(ctx, p, d, "beam", str(d))
    for t0 in (1, 7, 28, 90):
        for b0 in (0, 120):
            d.update(t0=t0, b0=b0)
            p.t0, p.b0 = t0, b0
            beam_check(ctx, p, d, "beam", str(d))


BEAMOPS = ["steel", "fy", "slab", "hc", "conc", "L", "b0", "t0", "RH", "h", "q"]


def run_beamhist(case, ctx):
    from metku.eurocodes.en1992 import constants
    from metku.sections.composite import composite_beam as m
    d = {"s": ["WI", 300, 6.0, 150, 10.0, 355], "conc": "C30/37", "hc": 100, "ha": 0, "L": 6000.0, "RH": 50}
    p = beam_new(d)
    for op in case["ops"]:
        if op == "steel":
            d["s"] = ["WI", 800, 10.0, 300, 25.0, 235]
            p.steel = steel_new(d["s"])
        elif op == "h":
            d["s"][1] += 50
            p.steel.h = d["s"][1]
        elif op == "fy":
            d["s"][-1] = 420
            p.steel.material = "S420"
        elif op == "slab":
            d.update(hc=70, ha=60, conc="C25/30", RH=60)
            c = constants.Concrete("C25/30")
            c.RH = 60
            p.slab = m.CompositeSlab(130, c, 60)
        elif op == "hc":
            d["hc"] += 40
            p.slab.hc = d["hc"]
        elif op == "conc":
            d.update(conc="C45/55", RH=70)
            c = constants.Concrete("C45/55")
            c.RH = 70
            p.slab.material = c
        elif op == "L":
            d["L"] = 1500.0
            p.length = 1500.0
        elif op == "b0":
            d["b0"] = 200
            p.b0 = 200
        elif op == "t0":
            d["t0"] = 7
            p.t0 = 7
        elif op == "RH":
            d["RH"] = 90
            p.slab.material.RH = 90
        else:
            beam_check(ctx, p, d, "beam-history", f"after {case['ops']}")
    beam_check(ctx, p, d, "beam-history", f"after {case['ops']}")


def families(tier):
    deep = tier == "thorough"
    return [
        Family("creep", lambda: ({"c": c, "RH": RH, "h0": [50, 100, 280, 1e11], "t0": [1, 7, 28, 90]} for c in CONC + ["C12/15", "C16/20", "C35/45", "C45/55"] for RH in (30, 40, 50, 60, 80, 95, 100)), run_creep, "concrete x humidity x notional size x loading age x age", "9 grades, 7 humidities, 4 sizes, 4 loading ages, 6 ages"),
        Family("stud", lambda: ({"L": [v]} for v in (50, 57, 60, 66, 70, 75, 76, 77, 80, 88, 89, 100, 105, 125, 150)), run_stud, "stud x length x strength x concrete", "3 studs, 15 lengths, 4 strengths, 5 concretes"),
        Family("column", lambda: columns(deep), run_col, "tube x steel x concrete x bars x place of the bars x length x forces", "7 (10) tubes, 2 (4) steels, 3 (5) concretes, 5 bars incl. none, 4 places, 3 lengths, 8 force states"),
        Family("column-history", lambda: ({"ops": list(w)} for w in histories(COLOPS, 4 if deep else 3)), run_colhist, "all words over changes of parts and data and queries", f"depth {4 if deep else 3} over {len(COLOPS)} operations"),
        Family("beam", lambda: beams(deep), run_beam, "steel part x slab x concrete x span x humidity x age at loading", "12 steel parts, 2-3 steels, 5 slabs, 3-5 concretes, 5 spans"),
        Family("beam-history", lambda: ({"ops": list(w)} for w in histories(BEAMOPS, 4 if deep else 3)), run_beamhist, "all words over changes of parts and data and queries", f"depth {4 if deep else 3} over {len(BEAMOPS)} operations"),
    ]
