"""P36: sandwich panels: stiffness, fasteners (ECCS) and independence of panels."""
import itertools
import math
from ..core import Family, canon

FY = {"S280GD": (280.0, 360.0), "S250GD": (250.0, 330.0), "S320GD": (320.0, 390.0), "S350GD": (350.0, 420.0), "S355": (355.0, 510.0)}
SCREWS = [(5.5, 5.1, 4.59), (6.3, 5.9, 5.3), (8.0, 7.0, 6.2)]
BASE = dict(t=[0.6, 0.5], m=["S280GD", "S280GD"], tc=[0.04, 0.04], tC=98.9, G=3.7, b=1200.0, c=[1000.0], s=SCREWS[0])


def mods():
    import metku.framefem.framefem
    from metku.sandwich import sandwich as S
    return S


def make(d):
    S = mods()
    f = [S.Face(t, m, tc) for t, m, tc in zip(d["t"], d["m"], d["tc"])]
    k = S.Core(d["tC"], d["G"], 110e-9)
    return S.SandwichPanel(f, k, width=d["b"], length=6000.0, c=list(d["c"]), fastener=S.SandwichScrew(*d["s"]))


def solve(A, b):
    """Gauss elimination"""
    n = len(b)
    M = [list(map(float, r)) + [float(v)] for r, v in zip(A, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(M[r][i]))
        M[i], M[p] = M[p], M[i]
        for r in range(n):
            if r != i:
                q = M[r][i] / M[i][i]
                M[r] = [x - q * y for x, y in zip(M[r], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]


def stiffness(d, tsup):
    """force of the fastener for a unit displacement of the panel: a bar clamped by a rotational spring in the support, held by the
    inner face (spring of the hole) at the distance tsup/2 and by the outer face (rigid) at the distance tsup/2 + D"""
    tcor, t = d["t"][1] - d["tc"][1], d["t"][1]
    d1, ds = d["s"][2], d["s"][1]
    fu = FY[d["m"][1]][1]
    k = (6.93 / (0.26 + 0.8 * t) if tcor < 0.7 else 4.2 / 0.373) * fu * math.sqrt(tcor**3 * d1)
    C = 2400 * math.sqrt(tsup * d1**5)
    EI = 200000 * math.pi * ds**4 / 64
    a, D = tsup / 2, sum(d["t"]) + d["tC"]
    b = a + D

    def flex(x, y):
        """displacement at x from a unit force at y"""
        x, y = min(x, y), max(x, y)
        return x * x * (3 * y - x) / (6 * EI) + x * y / C
    # unknown forces of the faces F1, F2: inner face u = y(a) + F1/k, outer face u = y(b), u = 1
    F = solve([[flex(a, a) + 1 / k, flex(a, b)], [flex(b, a), flex(b, b)]], [1.0, 1.0])
    # the published formula compares the faces with each other; with xF the part of the inner face
    return sum(F)


def judge(p, d, ctx, w):
    ctx.step()
    E = 210000.0
    t1, t2 = d["t"]
    b = d["b"]
    D = d["tC"] + t1 + t2
    z = d["tC"] + (t1 + t2) / 2
    # parallel axis theorem about the common centroid of the faces
    yc = t2 * z / (t1 + t2)
    EIs = E * b * (t1 * yc**2 + t2 * (z - yc) ** 2)
    fu = FY[d["m"][1]][1]
    tcor = t2 - d["tc"][1]
    want = {"thickness": D, "d": z, "Atop": t1 * b, "Abottom": t2 * b, "S": d["G"] * b * z * z / d["tC"], "EIo": E * b * (t1**3 + t2**3) / 12, "EIs": EIs, "tF2_cor": tcor, "fu_F2": fu}
    for k, v in want.items():
        ctx.eq(float(getattr(p, k)), v, "value:" + k, f"{w}: {k}", 1e-9)
    for i, (f, m) in enumerate(zip(p.faces, d["m"])):
        ctx.eq([float(f.fy), float(f.fu), float(f.tcor)], [FY[m][0], FY[m][1], d["t"][i] - d["tc"][i]], "face", f"{w}: face {i}", 1e-9)
    ctx.eq(float(p.fastener_shear_resistance()), 4.2 * math.sqrt(tcor**3 * d["s"][2]) * fu / 1.25, "shear-resistance", f"{w}: shear resistance of the fastener", 1e-9)
    for tsup in (1.5, 6.0, 12.0):
        kv = stiffness(d, tsup)
        ctx.eq(float(p.fastener_transverse_stiffness(tsup)), kv, "fastener-stiffness", f"{w}: stiffness of fastener, support {tsup}", 1e-7)
        for L, n in ((6000.0, 4), (2500.0, 1)):
            ctx.eq(float(p.shear_stiffness_for_support(tsup, L, n)), kv * n / (2 * L) * sum(x * x for x in d["c"]), "support-stiffness", f"{w}: shear stiffness for a member", 1e-7)
    ctx.state(canon([want, kv]))


def value_cases(tier):
    deep = tier == "thorough"
    for t1, t2, m1, m2, tc, D, s, c in itertools.product((0.5, 0.6, 1.0), (0.4, 0.5, 0.7, 0.74, 0.75, 1.0), ("S280GD", "S350GD"), ("S280GD", "S320GD") + (("S250GD",) if deep else ()), (0.04, 0.0), (60.0, 100.0, 230.0) + ((80.0, 150.0, 300.0) if deep else ()), SCREWS, ([1000.0], [], [1000.0, 600.0], [900.0, 900.0, 200.0])):
        yield dict(BASE, t=[t1, t2], m=[m1, m2], tc=[0.04, tc], tC=D - t1 - t2, s=s, c=c, G=3.7 if c else 2.2, b=1200.0 if t1 != 1.0 else 1000.0)


def run_values(d, ctx):
    p = make(d)
    judge(p, d, ctx, str(d))
    # evaluation leaves the panel as it was
    judge(p, d, ctx, f"{d} again")


OPS = [["t", 0, 0.8], ["t", 1, 0.9], ["tC", 150.0], ["G", 2.5], ["b", 900.0], ["c+", 500.0], ["c", [700.0, 300.0]], ["s1", 5.3], ["s", 1], ["mat", 1, "S350GD"], ["face"]]


def hist_cases(tier):
    for h in itertools.chain.from_iterable(itertools.product(range(len(OPS)), repeat=n) for n in ((0, 1, 2) if tier == "quick" else (0, 1, 2, 3))):
        for kind in ("default", "ruukki", "given"):
            yield dict(kind=kind, ops=[OPS[i] for i in h])


def start(kind):
    S = mods()
    d = {k: list(v) if isinstance(v, list) else v for k, v in BASE.items()}
    if kind == "ruukki":
        return S.ruukki_panel(thickness=100), d
    if kind == "default":
        return S.SandwichPanel([S.Face(0.6), S.Face(0.5)], S.Core(98.9, 3.7, 110e-9)), d
    return make(d), d


def apply(p, d, o):
    S = mods()
    if o[0] == "t":
        p.faces[o[1]].t = o[2]
        d["t"][o[1]] = o[2]
    elif o[0] == "tC":
        p.core.t = d["tC"] = o[1]
    elif o[0] == "G":
        p.core.G = d["G"] = o[1]
    elif o[0] == "b":
        p.width = d["b"] = o[1]
    elif o[0] == "c+":
        p.c.append(o[1])
        d["c"].append(o[1])
    elif o[0] == "c":
        p.c, d["c"] = list(o[1]), list(o[1])
    elif o[0] == "s1":
        p.fastener.d1 = o[1]
        d["s"] = d["s"][:2] + (o[1],)
    elif o[0] == "s":
        p.fastener, d["s"] = S.SandwichScrew(*SCREWS[o[1]]), SCREWS[o[1]]
    elif o[0] == "mat":
        p.faces[o[1]].mat = type(p.faces[o[1]].mat)(o[2])
        d["m"][o[1]] = o[2]
    elif o[0] == "face":
        p.faces[1], d["t"][1], d["tc"][1], d["m"][1] = S.Face(0.63, "S320GD", 0.02), 0.63, 0.02, "S320GD"


def run_hist(c, ctx):
    p, d = start(c["kind"])
    q, e = start(c["kind"])
    judge(p, d, ctx, f"{c} new")
    for o in c["ops"]:
        apply(p, d, o)
        judge(p, d, ctx, f"{c} after {o}")
        judge(q, e, ctx, f"{c} after {o}, other panel")
    r, f = start(c["kind"])
    judge(r, f, ctx, f"{c} later panel")


def families(tier):
    return [Family("values", lambda: value_cases(tier), run_values, "panels: face thicknesses x materials x coatings x depths x screws x positions of screws", "3 x 6 x 2 x 2 (3) x 2 x 3 (6) x 3 x 4"),
            Family("histories", lambda: hist_cases(tier), run_hist, "all sequences of edits of one panel, with another panel alive and one made later", "11 edits, depth 2 (3), 3 ways to make a panel")]
