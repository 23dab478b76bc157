"""P15: cross-section resistance and utilisation (EN 1993-1-1, 6.2), classes 1-3, major axis."""
import math
from ..core import Family, product_cases, canon, histories
from ..drv import sections as S
from ..ref import ec3 as R
from .p14 import GRADE

FY = [235, 355, 420, 460, 700]
SEC = {
    "RHS": dict(H=[80, 150, 250, 400], B=[80, 150, 300], T=[3, 5, 8, 12.5]),
    "SHS": dict(H=[100, 200, 400], T=[4, 6, 10]),
    "CHS": dict(D=[88.9, 219.1, 508], T=[3, 5, 10]),
    "CustomCHS": dict(D=[219.1], T=[5]),
    "I": dict(H=[150, 300, 600], B=[100, 300], tf=[8, 20], tw=[5, 10], r=[9, 21]),
    "CustomI": dict(H=[300], B=[150], tf=[10], tw=[7], r=[12]),
    "WI": dict(h=[300, 700, 1200], tw=[6, 10, 20], bt=[150, 400], tt=[10, 25], a=[4]),
}
# fractions of the plastic resistances
NF = [0.0, -0.001, -0.1, -0.25, -0.4, -0.8, -0.97, -1.05, -2.0, 0.001, 0.1, 0.25, 0.4, 0.8, 0.97, 1.05, 2.0]
MF = [0.0, 0.02, -0.02, 0.5, -0.5, 1.0, -1.0, 1.7]
VF = [0.0, 0.6, -1.3]


def fill(kind, d):
    return dict(d, bb=d["bt"], tb=d["tt"]) if kind == "WI" else d


def sec_cases(tier):
    for kind, ax in SEC.items():
        for k, d in enumerate(product_cases(**ax)):
            if kind == "RHS" and min(d["H"], d["B"]) <= 2 * S.radius(d["T"]):
                continue
            for fy in (FY if tier == "thorough" else [FY[k % 5], FY[(k + 2) % 5]]):
                yield {"kind": kind, "d": dict(fill(kind, d), fy=GRADE[fy])}


TOLS = {"I": 4e-4, "CustomI": 4e-4, "WI": 1e-8}


def check(ctx, s, kind, p, d, N, M, V, what, how=0):
    """compare everything section_resistance uses with the standard for the forces that are set"""
    c, near, mrd, u = R.section_check(kind, p, d, N, M, V)
    un = u[0]
    if near or c == 4 or abs(un - 1) < 1e-3:
        ctx.undefined += 1
        return False
    t = TOLS.get(kind, 5e-5)
    w = f"{what} {kind} {d} N={N:.6g} M={M:.6g} V={V:.6g} class {c}"
    if how == 1:            # resistances asked for before the check
        ctx.eq([s.MRd, s.MyRd, s.bending_resistance()[0], s.bending_resistance(verb=True)[0]], [mrd] * 4, "MRd", w + ": bending resistance", t)
        ctx.eq(s.bending_resistance()[1], c, "MRd-class", w + ": class used")
    r = s.section_resistance()
    # for N close to Npl the reduced moment is small: compare its inverse
    ctx.eq(r, u, "utilisation", w + ": utilisations N, V, M, MN", t / max(1e-2, abs(1 - un)))
    ctx.eq(s.section_resistance(return_list=False, verb=True), max(u), "maximum", w + ": governing utilisation", t / max(1e-2, abs(1 - un)))
    npl = p["A"] * p["fy"]
    ctx.eq([s.NRd, s.axial_force_resistance(), s.VRd, s.VzRd, s.shear_force_resistance()], [npl, npl] + [p["Ashear"][1] * p["fy"] / math.sqrt(3)] * 3, "NVRd",
           w + ": axial and shear resistance", 6e-5)
    ctx.eq([s.MRd, s.MyRd], [mrd] * 2, "MRd", w + ": bending resistance", t)
    return True


def run_sec(case, ctx):
    kind, d = case["kind"], case["d"]
    p = S.ref(kind, d)
    s = S.make(kind, d)
    npl, mpl, vpl = p["A"] * p["fy"], p["Wpl"][0] * p["fy"], p["Ashear"][1] * p["fy"] / math.sqrt(3)
    t = TOLS.get(kind, 5e-5)
    ctx.eq([s.plastic_bending_resistance(), s.elastic_bending_resistance(), s.plastic_bending_resistance("z"), s.elastic_bending_resistance("z")],
           [w * p["fy"] for w in (p["Wpl"][0], p["Wel"][0], p["Wpl"][1], p["Wel"][1])], "bending-resistances", f"{kind} {d}: plastic and elastic resistance", t)
    for c in (1, 2, 3):
        ctx.eq([s.bending_resistance(C=c)[0], s.bending_resistance(C=c, axis="z")[0]], [R.bending(kind, p, c), (p["Wpl"] if c < 3 else p["Wel"])[1] * p["fy"]],
               "bending-class", f"{kind} {d}: bending resistance in class {c}", t)
    if kind in ("RHS", "SHS", "CHS", "CustomCHS"):
        v = p["Ashear"][0] * p["fy"] / math.sqrt(3)
        ctx.eq([s.VyRd, s.shear_force_resistance(axis="y")], [v, v], "VyRd", f"{kind} {d}: horizontal shear resistance", 5e-5)
    k = 0
    for nf in NF:
        for mf in MF:
            V = VF[k % 3] * vpl
            N, M = nf * npl, mf * mpl
            s.Ned, s.Med, s.Ved = N, [M, 0.0], [0.0, V]
            k += 1
            if check(ctx, s, kind, p, d, N, M, V, "", how=k % 2):
                ctx.state((kind, canon(d), canon(nf), canon(mf), k % 3))


# ---------------------------------------------------------------- order of checks
HSEC = [
    ("RHS", dict(H=250, B=150, T=5, fy="S355")), ("RHS", dict(H=200, B=100, T=8, fy="S420")), ("SHS", dict(H=200, T=6, fy="S460M")),
    ("CHS", dict(D=219.1, T=4, fy="S355")), ("I", dict(H=400, B=180, tf=13.5, tw=8.6, r=21, fy="S355")),
    ("I", dict(H=300, B=300, tf=9, tw=7, r=15, fy="S460M")), ("WI", dict(h=600, tw=8, bt=250, bb=250, tt=14, tb=14, a=4, fy="S355")),
]
OPS = [["f", 0.0, 0.7, 0.5], ["f", -0.5, 0.3, 0.0], ["f", 0.6, -0.4, -0.8], ["f", -0.9, 0.0, 0.2], ["f", -0.2, -0.9, 0.3], ["f", 0.1, 0.6, 0.0],
       ["N", -0.35], ["M", 0.45], ["V", -0.7], ["steel", "S355"], ["steel", "S460M"], ["dim"], ["ask"]]


def hist_cases(tier):
    for k in range(len(HSEC)):
        for w in histories(OPS, 4 if tier == "thorough" else 3, lambda w, a: not w or w[-1] != a, mindepth=1):
            yield {"sec": k, "ops": w}


EDIT = {"RHS": ("H", 300), "WI": ("tw", 12), "CHS": None, "SHS": None, "I": None}


def run_hist(case, ctx):
    kind, d = HSEC[case["sec"]]
    d = dict(d)
    s = S.make(kind, d)
    p = S.ref(kind, d)
    N = M = V = 0.0
    for op in case["ops"]:
        npl, mpl, vpl = p["A"] * p["fy"], p["Wpl"][0] * p["fy"], p["Ashear"][1] * p["fy"] / math.sqrt(3)
        if op[0] == "f":
            N, M, V = op[1] * npl, op[2] * mpl, op[3] * vpl
            s.Ned = N
            s.Med[0] = M
            s.Ved[1] = V
        elif op[0] == "N":
            N = op[1] * npl
            s.Ned = N
        elif op[0] == "M":
            M = op[1] * mpl
            s.Med[0] = M
        elif op[0] == "V":
            V = op[1] * vpl
            s.Ved[1] = V
        elif op[0] == "steel":
            d["fy"] = op[1]
            s.material = op[1]
            p = S.ref(kind, d)
        elif op[0] == "dim":
            if EDIT[kind]:
                d[EDIT[kind][0]] = EDIT[kind][1]
                setattr(s, *EDIT[kind])
                p = S.ref(kind, d)
        elif op[0] == "ask":
            s.section_resistance()
            s.bending_resistance(C=3)
            s.section_resistance(axis="z") if kind in ("RHS", "SHS", "CHS") else None
    ctx.state((case["sec"], canon([N, M, V]), canon(d)))
    check(ctx, s, kind, p, d, N, M, V, f"after {case['ops']}:")
    check(ctx, s, kind, p, d, N, M, V, f"again after {case['ops']}:", 1)


# ---------------------------------------------------------------- members check their sections
FS = [(0.0, 0.0, 0.0), (-0.5, 0.3, 0.2), (0.5, -0.3, 0.1), (0.0, 0.8, -0.6), (-0.9, 0.0, 0.0), (0.2, 0.5, 0.9)]


def mem_cases(tier):
    for k in range(len(HSEC)):
        for a in range(len(FS)):
            for b in range(len(FS)):
                for c in (range(len(FS)) if tier == "thorough" or k % 2 == 0 else (0, 3)):
                    yield {"sec": k, "f": [a, b, c]}


def run_mem(case, ctx):
    from metku.structures.steel.steel_member import SteelMember
    kind, d = HSEC[case["sec"]]
    p = S.ref(kind, d)
    npl, mpl, vpl = p["A"] * p["fy"], p["Wpl"][0] * p["fy"], p["Ashear"][1] * p["fy"] / math.sqrt(3)
    m = SteelMember(S.make(kind, d), 3000)
    F = [(FS[i][0] * npl, FS[i][1] * mpl, FS[i][2] * vpl) for i in case["f"]]
    for loc, (N, M, V) in zip((0, 0.5, 1), F):
        m.add_section(ned=N, myed=M, vzed=V, loc=loc)
    us = []
    for (N, M, V) in F:
        c, near, _, u = R.section_check(kind, p, d, N, M, V)
        if near or c == 4:
            ctx.undefined += 1
            return
        us.append(u)
    got = m.check_sections()
    ctx.eq(got, max(max(u) for u in us), "member", f"{kind} {d} {F}: governing utilisation of the sections", 4e-3)
    for loc, u in zip((0, 0.5, 1), us):
        x = m.sections[loc]["utilization"]
        ctx.eq([x["n"], x["vz"], x["my"], x["mny"]], u, "member-section", f"{kind} {d} {F}: utilisation at {loc}", 4e-3)
        ctx.state((case["sec"], canon(u)))
    for loc, u in list(zip((0, 0.5, 1), us))[::-1]:
        ctx.eq(m.check_section(loc), u, "member-section", f"{kind} {d} {F}: checking {loc} alone", 4e-3)
    ctx.eq([m.NEd, -m.NcEd, m.MEdY, m.VEdZ], [max(abs(f[0]) for f in F), -min(0, min(f[0] for f in F)), max(abs(f[1]) for f in F), max(abs(f[2]) for f in F)],
           "member-forces", f"{F}: extreme forces")


# ---------------------------------------------------------------- formulas
def form_cases(tier):
    for fy in (235, 355, 460):
        for A in (100.0, 2350.0, 17000.0):
            yield {"fy": fy, "A": A}


def run_form(case, ctx):
    from metku.eurocodes.en1993 import en1993_1_1 as E
    fy, A = case["fy"], case["A"]
    ctx.eq([E.tension_resistance(A, fy), E.compression_resistance(A, fy), E.bending_resistance(A, fy), E.shear_resistance(A, fy)],
           [A * fy, A * fy, A * fy, A * fy / math.sqrt(3)], "formula", f"resistances for {A} mm2, {fy} MPa", 1e-12)
    for fu in (360, 470, 550):
        ctx.eq(E.net_section_resistance(A, fu), 0.9 * A * fu / 1.25, "net-section", "net section resistance", 1e-12)


def families(tier):
    return [
        Family("sections", lambda: sec_cases(tier), run_sec, "profile grid x grade x axial force x bending moment x shear force", "%d force states per section" % (len(NF) * len(MF))),
        Family("histories", lambda: hist_cases(tier), run_hist, "all histories of setting forces, steel, dimensions and asking for resistances", "depth %d" % (4 if tier == "thorough" else 3)),
        Family("member-sections", lambda: mem_cases(tier), run_mem, "members with three sections, every combination of force states", "6^3 force states"),
        Family("formulas", lambda: form_cases(tier), run_form, "resistance formulas", "9 x 3"),
    ]
