"""Independent transcription of EN 1993-1-1 (section classes, cross-section and member resistance)."""
import math

INF = float("inf")
CURVE = {"a0": 0.13, "a": 0.21, "b": 0.34, "c": 0.49, "d": 0.76}


def eps(fy):
    return (235.0 / fy) ** 0.5


# ------------------------------------------------------------ Table 5.2
def grade(r, lims):
    """class and closeness of r to a limit"""
    c = 4
    for k, l in enumerate(lims):
        if r <= l:
            c = k + 1
            break
    near = any(l not in (0, INF) and abs(r / l - 1) < 1e-9 for l in lims)
    return c, near


def internal_bending(r, e):
    return grade(r, [72 * e, 83 * e, 124 * e])


def internal_compression(r, e):
    return grade(r, [33 * e, 38 * e, 42 * e])


def outstand_compression(r, e):
    return grade(r, [9 * e, 10 * e, 14 * e])


def chs(r, e):
    return grade(r, [50 * e * e, 70 * e * e, 90 * e * e])


def internal_both(r, e, a, p):
    """a: share of the part in compression (plastic), p: ratio of elastic edge stresses"""
    if a <= 0:
        l1 = l2 = INF
    elif a > 0.5:
        l1, l2 = 396 * e / (13 * a - 1), 456 * e / (13 * a - 1)
    else:
        l1, l2 = 36 * e / a, 41.5 * e / a
    if p > -1:
        l3 = 42 * e / (0.67 + 0.33 * p)
    else:
        l3 = 62 * e * (1 - p) * math.sqrt(-p)
    c = 1 if r <= l1 else 2 if r <= l2 else 3 if r <= l3 else 4
    near = any(l != INF and abs(r / l - 1) < 1e-9 for l in (l1, l2, l3))
    return c, near


def worst(*cs):
    return max(c for c, _ in cs), any(n for _, n in cs)


def parts(kind, p, d):
    """c/t of flange and web, number of webs, web depth and thickness"""
    dim = p["dim"]
    if kind in ("RHS", "SHS"):
        return dict(rf=dim["c_flange"] / d["T"], rw=dim["c_web"] / d["T"], cw=dim["c_web"], t=2 * d["T"], h=d["H"], out=False)
    if kind in ("I", "CustomI"):
        return dict(rf=dim["cf"] / d["tf"], rw=dim["hw"] / d["tw"], cw=dim["hw"], t=d["tw"], h=d["H"], out=True)
    if kind == "WI":
        return dict(rf=dim["cf_top"] / d["tt"], rw=dim["cw"] / d["tw"], cw=dim["cw"], t=d["tw"], h=d["h"], out=True)


def section_class(kind, p, d, N, M, e=None):
    """N tension positive, M about the major axis.  p: properties, d: dimensions"""
    e = eps(p["fy"]) if e is None else e
    if kind in ("CHS", "CustomCHS"):
        if M == 0 and N >= 0 or N / p["A"] >= abs(M) / p["Wel"][0]:
            return 1, False
        return chs(d["D"] / d["T"], e)
    q = parts(kind, p, d)
    fl = outstand_compression(q["rf"], e) if q["out"] else internal_compression(q["rf"], e)
    sN, sM = N / p["A"], abs(M) / p["Wel"][0]
    if sN >= sM:
        return 1, abs(sN - sM) < 1e-9 * (abs(sN) + abs(sM)) and sM > 0
    if M == 0:
        return worst(fl, internal_compression(q["rw"], e))
    if N == 0:
        if kind == "WI":
            wl = (d["h"] - p["dim"]["hw"])  # both flanges
            top, bot = d["h"] - d["tt"], d["tb"]
            zt, zb = top - (p["dim"]["hw"] - q["cw"]) / 2, bot + (p["dim"]["hw"] - q["cw"]) / 2
            a = min(max((zt - p["zpl"]) / q["cw"], 0), 1)
            psi = -(p["zel"] - bot) / (top - p["zel"])
            return worst(fl, internal_both(q["rw"], e, a, psi))
        return worst(fl, internal_bending(q["rw"], e))
    if sN >= q["cw"] / q["h"] * sM:
        return fl[0], fl[1] or abs(sN - q["cw"] / q["h"] * sM) < 1e-9 * (sN + sM)
    a = min(max(0.5 * (1 - N / (q["cw"] * q["t"] * p["fy"])), 0), 1)
    psi = (-sN - sM) / (-sN + sM)
    return worst(fl, internal_both(q["rw"], e, a, psi))


# ------------------------------------------------------------ 6.2 cross-section resistance (doubly symmetric sections)
def bending(kind, p, c):
    """major axis bending resistance in class c (elastic in class 3 and above)"""
    return (p["Wpl"][0] if c < 3 else p["Wel"][0]) * p["fy"]


def reduced_moment(kind, p, d, n, M):
    """plastic bending resistance in the presence of the axial force n = N/Npl"""
    if n > 1:
        return 0.0
    if kind in ("CHS", "CustomCHS"):
        return M * (1 - n ** 1.7)
    if kind in ("RHS", "SHS"):
        fl = 2 * d.get("B", d["H"]) * d["T"]
    elif kind == "WI":
        fl = d["bt"] * d["tt"] + d["bb"] * d["tb"]
    else:
        fl = 2 * d["B"] * d["tf"]
    a = min((p["A"] - fl) / p["A"], 0.5)
    return min(M, M * (1 - n) / (1 - 0.5 * a))


def section_check(kind, p, d, N, M, V):
    """class and utilisations [N, V, M, MN]"""
    c, near = section_class(kind, p, d, N, M)
    mrd = bending(kind, p, c)
    un = abs(N) / (p["A"] * p["fy"])
    uv = abs(V) / (p["Ashear"][1] * p["fy"] / math.sqrt(3))
    um = abs(M) / mrd
    umn = un + um
    if c < 3:
        mn = reduced_moment(kind, p, d, un, mrd)
        if mn > 0:
            umn = abs(M) / mn
    return c, near, mrd, [un, uv, um, umn]


# ------------------------------------------------------------ 6.3 member resistance
def curves(kind, p, d):
    """imperfection factors: flexural y, z; lateral-torsional general, specific"""
    if kind in ("RHS", "SHS", "CHS", "CustomCHS"):
        return ("c", "c", "c", "c")     # cold-formed hollow sections
    if kind == "WI":
        y, z = ("b", "c") if max(d["tt"], d["tb"]) <= 40 else ("c", "d")
        l = "c" if d["h"] / min(d["bt"], d["bb"]) <= 2 else "d"
        return (y, z, l, l)
    hb, tf, fy = d["H"] / d["B"], d["tf"], p["fy"]
    if hb > 1.2:
        if tf <= 40:
            y, z = ("a", "b") if fy <= 420 else ("a0", "a0")
        else:
            y, z = ("b", "c") if fy <= 420 else ("a", "a")
    else:
        if tf <= 100:
            y, z = ("b", "c") if fy <= 420 else ("a", "a")
        else:
            y, z = ("d", "d") if fy <= 420 else ("c", "c")
    return (y, z, "a", "b") if hb <= 2 else (y, z, "b", "c")


def chi(lam, alpha):
    if lam <= 0.2:
        return 1.0
    phi = 0.5 * (1 + alpha * (lam - 0.2) + lam ** 2)
    return 1 / (phi + math.sqrt(phi ** 2 - lam ** 2))


def chi_LT(lam, alpha, method):
    if method == "general":
        return chi(lam, alpha)
    if lam <= 0.4:
        return 1.0
    phi = 0.5 * (1 + alpha * (lam - 0.4) + 0.75 * lam ** 2)
    return min(1.0, 1 / lam ** 2, 1 / (phi + math.sqrt(phi ** 2 - 0.75 * lam ** 2)))


def cm(m1, m2, ms, load):
    """Table B.3"""
    big, small = (m1, m2) if abs(m1) > abs(m2) else (m2, m1)
    psi = small / big if big else 0.0
    if ms is None or abs(ms - (m1 + m2) / 2) < 1e-6:
        return max(0.6 + 0.4 * psi, 0.4)
    u = load == "uniform"
    if abs(ms) > abs(big):
        a = big / ms
        k0, k1 = (0.95, 0.05) if u else (0.90, 0.10)
        return k0 + k1 * a * (1 if a >= 0 or psi >= 0 else 1 + 2 * psi)
    a = ms / big
    if a >= 0:
        return max(0.2 + 0.8 * a, 0.4)
    if psi >= 0:
        return max((0.1 if u else 0.0) - 0.8 * a, 0.4)
    return max((0.1 * (1 - psi) if u else -0.2 * psi) - 0.8 * a, 0.4)


def k_yy(un, lam, c, cls):
    if cls < 3:
        return min(c * (1 + (lam - 0.2) * un), c * (1 + 0.8 * un))
    return min(c * (1 + 0.6 * lam * un), c * (1 + 0.6 * un))


def k_zz(un, lam, c, cls, prof):
    if cls >= 3:
        return min(c * (1 + 0.6 * lam * un), c * (1 + 0.6 * un))
    if prof == "hollow":
        return min(c * (1 + (lam - 0.2) * un), c * (1 + 0.8 * un))
    return min(c * (1 + (2 * lam - 0.6) * un), c * (1 + 1.4 * un))


def k_zy(ky, un, lam, cmlt, cls, torsion):
    if not torsion:
        return (0.6 if cls < 3 else 0.8) * ky
    f = 0.1 if cls < 3 else 0.05
    if cls < 3 and lam < 0.4:
        return min(0.6 + lam, 1 - 0.1 * lam / (cmlt - 0.25) * un)
    return max(1 - f * lam / (cmlt - 0.25) * un, 1 - f / (cmlt - 0.25) * un)


def mcr(Iz, Iw, It, L, C, k, zg, zj, E=210e3, G=81e3):
    """three-factor formula"""
    kz, kw = k
    ncr = math.pi ** 2 * E * Iz / (kz * L) ** 2
    x = C[1] * zg - C[2] * zj
    return C[0] * ncr * (math.sqrt((kz / kw) ** 2 * Iw / Iz + G * It / ncr + x * x) - x)


def wi_zs_zj(d, p):
    """shear centre from centroid and Wagner's factor of a welded I-section (exact integrals over the plates)"""
    h, tw, bt, bb, tt, tb = (d[k] for k in ("h", "tw", "bt", "bb", "tt", "tb"))
    # plates: (width in y, z from, z to) from the bottom
    pl = [(bt, h - tt, h), (bb, 0.0, tb), (tw, tb, h - tt)]
    A = sum(b * (z2 - z1) for b, z1, z2 in pl)
    zg = sum(b * (z2 ** 2 - z1 ** 2) / 2 for b, z1, z2 in pl) / A
    Iy = sum(b * ((z2 - zg) ** 3 - (z1 - zg) ** 3) / 3 for b, z1, z2 in pl)
    Iz = sum(b ** 3 * (z2 - z1) / 12 for b, z1, z2 in pl)
    zs = sum(b ** 3 * (z2 - z1) / 12 * ((z1 + z2) / 2 - zg) for b, z1, z2 in pl) / Iz
    s = 0.0
    for b, z1, z2 in pl:
        a1, a2 = z1 - zg, z2 - zg
        s += b ** 3 / 12 * (a2 ** 2 - a1 ** 2) / 2 + b * (a2 ** 4 - a1 ** 4) / 4
    return zs, zs - 0.5 * s / Iy


def member(kind, p, d, L, lcr, forces, ltb=False, sway=False, load="uniform", cls=None, G=None):
    """p, d: section; forces: list of (loc, N, My, Vz).  Returns a dict of everything the design uses"""
    E, fy, A = 210e3, p["fy"], p["A"]
    npl = A * fy
    al = [CURVE[c] for c in curves(kind, p, d)]
    ncr = [math.pi ** 2 * E * p["I"][i] / (L * lcr[i]) ** 2 for i in (0, 1)]
    lam = [math.sqrt(npl / n) for n in ncr]
    nb = [chi(lam[i], al[i]) * npl for i in (0, 1)]
    out = {"ncr": ncr, "lam": lam, "NbRd": nb}
    i0 = math.sqrt((p["I"][0] + p["I"][1]) / A)
    out["ncrT"] = (G * p["It"] + math.pi ** 2 * E * p["Iw"] / L ** 2) / i0 ** 2
    lt = math.sqrt(npl / out["ncrT"])
    out["NbT"] = chi(lt, al[1]) * npl
    if not forces:
        return out
    near = False
    sec = []
    for loc, N, M, V in forces:
        c, nr, mrd, u = section_check(kind, p, d, N, M, V)
        near |= nr
        sec.append((c, u))
    out["sections"] = sec
    M = max(abs(f[2]) for f in forces)
    N = min(0.0, min(f[1] for f in forces))
    out["MEd"], out["NEd"] = M, N
    out["buck"] = [-N / nb[0], -N / nb[1]] if N < 0 else [0.0, 0.0]
    c0, nr = section_class(kind, p, d, N, M)
    near |= nr
    c = c0 if cls is None else cls
    mrd = bending(kind, p, c)
    Mcr = mcr(p["I"][1], p["Iw"], p["It"], L, (1.12, 0.45, 0.525), (1, 1), 0.0, 0.0)
    out["Mcr"] = Mcr

    def mb(mr, method="specific"):
        l = math.sqrt(mr / Mcr)
        l0 = 0.2 if method == "general" else 0.4
        if M / Mcr <= l0 ** 2:
            return mr
        return chi_LT(l, al[2] if method == "general" else al[3], method) * mr
    out["Mb"] = {m: mb(bending(kind, p, c0), m) for m in ("general", "specific")}
    out["LT"] = M / out["Mb"]["specific"]
    if M < 1e-6:
        out["bc"] = [0.0, 0.0]
    else:
        if sway:
            Cmy = 0.9
        else:
            f = {x[0]: x[2] for x in forces}
            Cmy = cm(f[0], f[1], f.get(0.5), load) if 0 in f and 1 in f else 0.9
        un = [-N / nb[0], -N / nb[1]]
        ky = k_yy(un[0], lam[0], Cmy, c)
        if ltb:
            kzy = k_zy(ky, un[1], lam[1], 1.0, c, True)
            mrd = mb(mrd)
        else:
            kzy = 0.0
        out["bc"] = [un[0] + ky * M / mrd, un[1] + kzy * M / mrd]
    out["class"] = c0
    out["near"] = near
    r = max(max(u) for _, u in sec)
    if ltb:
        r = max(r, out["LT"])
    if N < 0:
        r = max([r] + out["buck"] + out["bc"])
    out["design"] = r
    return out
