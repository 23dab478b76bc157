"""Steel sections: construction from plain data and reference properties."""
import math
from ..ref import geom as G

RHO = 7850e-9


def radius(T):
    return 2 * T if T <= 6.0 else 2.5 * T if T <= 10.0 else 3 * T


def make(kind, d):
    from metku.sections.steel.RHS import RHS, SHS
    from metku.sections.steel.CHS import CHS, CustomCHS
    from metku.sections.steel.ISection import CustomISection, ISection
    from metku.sections.steel.wi import WISection
    from metku.sections.steel.wq import WQSection
    fy = d.get("fy", "S355")
    if kind == "RHS":
        return RHS(d["H"], d["B"], d["T"], fy)
    if kind == "SHS":
        return SHS(d["H"], d["T"], fy)
    if kind == "CHS":
        return CHS(d["D"], d["T"], fy)
    if kind == "CustomCHS":
        return CustomCHS(d["D"], d["T"], fy)
    if kind == "I":
        return ISection(d["H"], d["B"], d["tf"], d["tw"], d["r"], fy)
    if kind == "CustomI":
        return CustomISection(d["H"], d["B"], d["tf"], d["tw"], d["r"], fy)
    if kind == "WI":
        return WISection(d["h"], d["tw"], [d["bt"], d["bb"]], [d["tt"], d["tb"]], fy, d.get("a", 5))
    if kind == "WQ":
        return WQSection(d["h"], d["tw"], [d["bt"], d["bb"]], [d["tt"], d["tb"]], fy)
    raise KeyError(kind)


def fyof(fy):
    return float(fy[1:4]) if isinstance(fy, str) else float(fy)


def _it_hollow(H, B, T, R):
    """EN 10219-2"""
    Rc = R - T / 2
    hh = 2 * ((B - T) + (H - T)) - 2 * Rc * (4 - math.pi)
    Ah = (B - T) * (H - T) - Rc ** 2 * (4 - math.pi)
    return T ** 3 * hh / 3 + 4 * Ah ** 2 * T / hh


def _it_rolled(h, b, tf, tw, r):
    al = -0.042 + 0.2204 * tw / tf + 0.1355 * r / tf - 0.0865 * r * tw / tf ** 2 - 0.0725 * (tw / tf) ** 2
    D = ((tf + r) ** 2 + (r + tw / 4) * tw) / (2 * r + tf)
    return 2 / 3 * b * tf ** 3 + (h - 2 * tf) * tw ** 3 / 3 + 2 * al * D ** 4 - 0.42 * tf ** 4


def ref(kind, d):
    """reference properties of the section with dimensions d"""
    fy = fyof(d.get("fy", "S355"))
    eta = 1.2 if fy <= 460 else 1.0
    if kind in ("RHS", "SHS"):
        H, T = d["H"], d["T"]
        B = d.get("B", H)
        R = radius(T)
        p = dict(G.props("RHS", H, B, T, R))
        A = p["A"]
        p["Ashear"] = [A * B / (B + H), A * H / (B + H)]
        p["It"] = _it_hollow(H, B, T, R)
        p["Iw"] = 0.0
        p["dim"] = {"h": H, "b": B, "t": T, "r": R, "c_web": H - 2 * R, "c_flange": B - 2 * R}
    elif kind in ("CHS", "CustomCHS"):
        D, T = d["D"], d["T"]
        p = dict(G.props("CHS", D, T))
        p["Ashear"] = [2 * p["A"] / math.pi] * 2
        p["It"] = 2 * p["I"][0]
        p["Iw"] = 0.0
        p["dim"] = {"h": D, "b": D}
    elif kind in ("I", "CustomI"):
        h, b, tf, tw, r = d["H"], d["B"], d["tf"], d["tw"], d["r"]
        p = dict(G.props("I", h, b, tf, tw, r))
        p["Ashear"] = [0.0, p["A"] - 2 * b * tf + (tw + 2 * r) * tf]
        p["It"] = _it_rolled(h, b, tf, tw, r)
        p["Iw"] = tf * b ** 3 / 24 * (h - tf) ** 2
        p["dim"] = {"h": h, "b": b, "hw": h - 2 * tf - 2 * r, "cf": (b - tw) / 2 - r}
    elif kind == "WI":
        h, tw, bt, bb, tt, tb = (d[k] for k in ("h", "tw", "bt", "bb", "tt", "tb"))
        p = dict(G.props("WI", h, bt, bb, tt, tb, tw))
        hw = h - tt - tb
        p["Ashear"] = [0.0, eta * hw * tw]
        p["It"] = (bt * tt ** 3 + bb * tb ** 3 + hw * tw ** 3) / 3
        i1, i2 = tt * bt ** 3 / 12, tb * bb ** 3 / 12
        # the warping constant uses the second moment of the whole section about the minor axis
        p["Iw"] = i1 * (1 - i1 / p["I"][1]) * (h - tt / 2 - tb / 2) ** 2
        wl = math.sqrt(2) * d.get("a", 5)
        p["dim"] = {"hw": hw, "cw": hw - 2 * wl, "cf_top": (bt - tw) / 2 - wl, "cf_bottom": (bb - tw) / 2 - wl,
                    "bt": bt, "bb": bb, "tt": tt, "tb": tb, "h": h, "tw": tw}
    elif kind == "WQ":
        h, tw, bt, bb, tt, tb = (d[k] for k in ("h", "tw", "bt", "bb", "tt", "tb"))
        p = dict(G.props("WQ", h, tw, bt, bb, tt, tb))
        p["dim"] = {"height": h + tb, "hw": h - tt, "lip": (bb - bt) / 2 - tw}
    p["fy"] = fy
    return p


def _spandrel(r):
    """square of side r minus a quarter circle (centre in one corner): area, distance of its centroid from the sides
    that meet in the opposite corner, second moment about an axis through the centroid"""
    a = (1 - math.pi / 4) * r * r
    if r == 0:
        return 0.0, 0.0, 0.0
    q = r * r * r / 2 - r ** 3 / 3            # first moment about a side through the centre
    c = q / a                                 # from the centre
    i = r ** 4 / 3 - math.pi * r ** 4 / 16    # about the side through the centre
    return a, r - c, i - a * c * c


def _rounded(H, B, R):
    """rounded rectangle: A, Iy, Iz, half first moments about both axes"""
    a, c, i = _spandrel(R)
    out = [B * H - 4 * a]
    for h, b in ((H, B), (B, H)):
        out.append(b * h ** 3 / 12 - 4 * (i + a * (h / 2 - c) ** 2))
    for h, b in ((H, B), (B, H)):
        out.append(b * h * h / 8 - 2 * a * (h / 2 - c))
    return out


def closed(kind, d):
    """closed-form area, second moments and moduli of RHS, SHS, CHS and I (checked against the outline
    integration of ref() in selftest.py; much faster)"""
    fy = fyof(d.get("fy", "S355"))
    if kind in ("RHS", "SHS"):
        H, T = d["H"], d["T"]
        B = d.get("B", H)
        R = radius(T)
        o, n = _rounded(H, B, R), _rounded(H - 2 * T, B - 2 * T, max(R - T, 0))
        v = [x - y for x, y in zip(o, n)]
        p = {"A": v[0], "I": [v[1], v[2]], "Wpl": [2 * v[3], 2 * v[4]], "Wel": [2 * v[1] / H, 2 * v[2] / B],
             "Ashear": [v[0] * B / (B + H), v[0] * H / (B + H)], "It": _it_hollow(H, B, T, R), "Iw": 0.0,
             "dim": {"h": H, "b": B, "t": T, "r": R, "c_web": H - 2 * R, "c_flange": B - 2 * R}}
    elif kind == "CHS":
        D, T = d["D"], d["T"]
        e = D - 2 * T
        I = math.pi * (D ** 4 - e ** 4) / 64
        A = math.pi * (D * D - e * e) / 4
        p = {"A": A, "I": [I, I], "Wel": [2 * I / D] * 2, "Wpl": [(D ** 3 - e ** 3) / 6] * 2, "Ashear": [2 * A / math.pi] * 2,
             "It": 2 * I, "Iw": 0.0, "dim": {"h": D, "b": D}}
    else:
        h, b, tf, tw, r = d["H"], d["B"], d["tf"], d["tw"], d["r"]
        a, c, i = _spandrel(r)
        hw = h - 2 * tf
        A = 2 * b * tf + hw * tw + 4 * a
        zy, zz = hw / 2 - c, tw / 2 + c
        Iy = (b * h ** 3 - (b - tw) * hw ** 3) / 12 + 4 * (i + a * zy ** 2)
        Iz = 2 * tf * b ** 3 / 12 + hw * tw ** 3 / 12 + 4 * (i + a * zz ** 2)
        p = {"A": A, "I": [Iy, Iz], "Wel": [2 * Iy / h, 2 * Iz / b],
             "Wpl": [b * tf * (h - tf) + tw * hw * hw / 4 + 4 * a * zy, b * b * tf / 2 + hw * tw * tw / 4 + 4 * a * zz],
             "Ashear": [0.0, A - 2 * b * tf + (tw + 2 * r) * tf], "It": _it_rolled(h, b, tf, tw, r), "Iw": tf * b ** 3 / 24 * (h - tf) ** 2,
             "dim": {"h": h, "b": b, "hw": h - 2 * tf - 2 * r, "cf": (b - tw) / 2 - r}}
    p["fy"] = fy
    return p


# approximations in the published formulas for rolled sections (fillet terms)
TOL = {"I": 3e-4, "CustomI": 3e-4, "WI": 1e-9, "WQ": 1e-9}


def compare(ctx, s, kind, d, rotate=False, what=""):
    p = ref(kind, d)
    tol = TOL.get(kind, 2e-5)
    ta = 1e-9 if kind in ("WI", "WQ") else 5e-5
    ctx.eq(s.A, p["A"], "A", f"{what} area", ta)
    ctx.eq(s.Au, p["Au"], "Au", f"{what} perimeter", 2e-5)
    for q in ("I", "Wel", "Wpl"):
        tol = TOL.get(kind, 2e-5) if q != "Wpl" or kind not in ("I", "CustomI") else 2e-5
        ctx.eq(list(getattr(s, q)), p[q], q, f"{what} {q}", tol)
        a, b = getattr(s, q + "y"), getattr(s, q + "z")
        w = p[q][::-1] if rotate else p[q]
        ctx.eq([a, b], w, q + "-axis", f"{what} {q} about y and z (rotated: {rotate})", tol)
    tol = TOL.get(kind, 2e-5)
    i = p["I"][::-1] if rotate else p["I"]
    ctx.eq([s.iy(), s.iz(), s.i0()], [math.sqrt(i[0] / p["A"]), math.sqrt(i[1] / p["A"]), math.sqrt(sum(i) / p["A"])], "radius",
           f"{what} radii of gyration", tol)
    if "Ashear" in p:
        ctx.eq(list(s.Ashear), p["Ashear"], "Ashear", f"{what} shear areas", 5e-5 if kind == "I" else 2e-5)
    for q in ("It", "Iw"):
        if q in p:
            ctx.eq(getattr(s, q), p[q], q, f"{what} {q}", 2e-5)
    ctx.eq([s.weight(), s.self_weight()], [p["A"] * RHO, p["A"] * RHO * 9.81], "weight", f"{what} weight", ta)
    ctx.eq(s.section_factor, p["Au"] / p["A"] * 1e3, "section-factor", f"{what} section factor", 4e-5)
    ctx.eq(s.fy, p["fy"], "fy", f"{what} yield strength")
    ctx.eq([s.eps, s.epsilon], [math.sqrt(235 / p["fy"])] * 2, "eps", f"{what} epsilon")
    for q, v in p["dim"].items():
        ctx.eq(getattr(s, q), v, "dim", f"{what} {q}", 1e-9)
    if kind == "WI":
        ctx.eq([s.elastic_neutral_axis(), s.plastic_neutral_axis()], [p["zel"], p["zpl"]], "axis", f"{what} neutral axes", 1e-6)
    if kind == "WQ":
        ctx.eq([s.elastic_neutral_axis(), d["tb"] + (d["h"] - d["tt"]) - s.plastic_neutral_axis()], [p["zel"], p["zpl"]], "axis",
               f"{what} neutral axes", 1e-6)
    return p
