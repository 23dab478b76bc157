"""P16: member buckling (EN 1993-1-1, 6.3 and Annex B), classes 1-3, uniaxial bending."""
import math
from ..core import Family, product_cases, canon, histories
from ..drv import sections as S
from ..ref import ec3 as R

SECS = {
    "rhs": ("RHS", dict(H=250, B=150, T=8)), "rhs3": ("RHS", dict(H=300, B=200, T=6)), "shs": ("SHS", dict(H=120, T=5)), "chs": ("CHS", dict(D=168.3, T=5)),
    "ipe": ("I", dict(H=300, B=150, tf=10.7, tw=7.1, r=15)), "heb": ("I", dict(H=200, B=200, tf=15, tw=9, r=18)), "tall": ("I", dict(H=600, B=220, tf=19, tw=12, r=24)),
    "h12": ("I", dict(H=240, B=200, tf=12, tw=8, r=18)), "h12+": ("I", dict(H=241, B=200, tf=12, tw=8, r=18)),
    "thick": ("I", dict(H=400, B=300, tf=41, tw=20, r=24)), "thick1": ("I", dict(H=360, B=310, tf=101, tw=30, r=24)), "forty": ("I", dict(H=400, B=300, tf=40, tw=20, r=24)),
    "h2": ("I", dict(H=400, B=200, tf=16, tw=10, r=18)), "custom": ("CustomI", dict(H=330, B=160, tf=12, tw=8, r=12)),
    "wi": ("WI", dict(h=400, tw=8, bt=200, bb=200, tt=14, tb=14, a=4)), "wi-tall": ("WI", dict(h=700, tw=12, bt=250, bb=250, tt=20, tb=20, a=5)),
    "wi-thick": ("WI", dict(h=500, tw=25, bt=300, bb=300, tt=45, tb=45, a=5)), "wi-40": ("WI", dict(h=500, tw=25, bt=250, bb=250, tt=40, tb=40, a=5)),
}
LCR = [[1.0, 1.0], [0.9, 0.5], [2.0, 0.7]]


def get(name, fy):
    kind, d = SECS[name]
    return kind, dict(d, fy=fy)


T0 = {"I": 4e-4, "CustomI": 4e-4, "WI": 1e-7}


def mem_cases(tier):
    L = [500, 2000, 5000, 12000] if tier == "quick" else [200, 500, 1000, 2000, 3500, 5000, 8000, 12000, 20000]
    for s in SECS:
        for fy in (["S235", "S355", "S460M"] if tier == "quick" else ["S235", "S355", "S420", "S460M", "S700"]):
            for l in L:
                for k in LCR:
                    yield {"sec": s, "fy": fy, "L": l, "lcr": k}


def cmp(ctx, m, r, t, w, forces):
    ctx.eq(m.ncrit(), r["ncr"], "Ncr", w + ": elastic buckling forces", t)
    ctx.eq(m.slenderness(), r["lam"], "slenderness", w + ": slenderness", t)
    ctx.eq(m.buckling_strength(), r["NbRd"], "NbRd", w + ": buckling resistance", t)
    ctx.eq(m.NbRd, r["NbRd"], "NbRd", w + ": buckling resistance", t)


def run_mem(case, ctx):
    from metku.structures.steel.steel_member import SteelMember
    kind, d = get(case["sec"], case["fy"])
    p = S.ref(kind, d)
    s = S.make(kind, d)
    t = T0.get(kind, 1e-4)
    m = SteelMember(s, case["L"], Lcr=case["lcr"])
    r = R.member(kind, p, d, case["L"], case["lcr"], [], G=s.G)
    w = f"{case}"
    al = [R.CURVE[c] for c in R.curves(kind, p, d)]
    ctx.eq(s.imp_factor, al[:2], "curve", w + ": imperfection factors", 1e-12)
    if kind not in ("CHS", "CustomCHS"):
        ctx.eq([s.imp_factor_LT_gen, s.imp_factor_LT], al[2:], "curve-LT", w + ": imperfection factors for lateral-torsional buckling", 1e-12)
    cmp(ctx, m, r, t, w, [])
    ctx.eq(m.weight(), p["A"] * S.RHO * case["L"], "weight", w + ": weight", t)
    if kind in ("I", "CustomI", "WI"):
        ctx.eq(m.ncrit_T(), r["ncrT"], "NcrT", w + ": torsional buckling force", 1e-3)
        ctx.eq(m.torsional_buckling_strength(), r["NbT"], "NbT", w + ": torsional buckling resistance", 1e-3)
        for C in ((1.12, 0.45, 0.525), (1.0, 0.0, 1.0), (1.77, 0.0, 0.9)):
            for k in ((1, 1), (0.5, 1), (0.7, 0.5)):
                for za in (0.0, 0.5 * p["dim"].get("h", 100), -60.0):
                    ctx.eq(m.mcrit(C=list(C), k=list(k), za=za), R.mcr(p["I"][1], p["Iw"], p["It"], case["L"], C, k, za, 0.0), "Mcr",
                           w + f": elastic critical moment C={C} k={k} za={za}", 1e-3)
        Mcr = m.mcrit()
        for meth, l0 in (("general", 0.2), ("specific", 0.4)):
            for mrd in (0.3 * l0 ** 2 * Mcr, 0.999 * l0 ** 2 * Mcr, 1.001 * l0 ** 2 * Mcr, 0.5 * Mcr, Mcr, 1.3 * Mcr, 4 * Mcr):
                # a moment above the threshold of 6.3.2.2(4) so that the reduction applies
                m.add_section(myed=5 * Mcr, loc=0)
                lam = math.sqrt(mrd / Mcr)
                a = al[2] if meth == "general" else al[3]
                ctx.eq(m.LT_buckling_strength(Mcr, meth, MRd=mrd), R.chi_LT(lam, a, meth) * mrd, "chiLT", w + f": {meth} method, slenderness {lam:.4f}", 1e-9)
                ctx.eq(m.LT_slenderness(Mcr, MRd=mrd), lam, "LT-slenderness", w + ": LT slenderness", 1e-9)
                m.clear_sections()
                m.add_section(myed=-0.99 * l0 ** 2 * Mcr, loc=0.5)
                ctx.eq(m.LT_buckling_strength(Mcr, meth, MRd=mrd), mrd, "chiLT-small", w + f": {meth} method, small moment", 1e-9)
                m.clear_sections()
    ctx.state(case)


# ---------------------------------------------------------------- design
NF = [0.0, -0.05, -0.4, -0.9, 0.3]
MSETS = [(0, 0, 0), (0.3, 0.3, 0.3), (0.5, 0.0, -0.5), (-0.4, 0.25, -0.2), (0.1, 0.6, 0.1), (0.0, 0.5, 0.0), (0.6, -0.3, 0.2), (-0.1, 0.5, 0.05), (0.5, None, -0.1), (0.4, 0.0, 0.4),
         (-0.5, -0.1, 0.4), (0.2, None, 0.5)]


def des_cases(tier):
    for s in ["rhs", "rhs3", "shs", "chs", "ipe", "heb", "tall", "wi", "wi-tall"]:
        for fy in (["S355", "S460M"] if s in ("ipe", "rhs", "chs") or tier == "thorough" else ["S355"]):
            for L, lcr in ((1200, [1.0, 1.0]), (4000, [0.9, 1.0]), (7000, [1.0, 0.4])):
                for nf in NF:
                    yield {"sec": s, "fy": fy, "L": L, "lcr": lcr, "nf": nf}


def forces_of(nf, ms, npl, mpl):
    return [(loc, nf * npl * (1 if loc != 1 else 0.8), x * mpl, 1e3) for loc, x in zip((0, 0.5, 1), ms) if x is not None]


def cmp_design(ctx, m, kind, p, d, L, lcr, F, t, w, ltb, G):
    for sway in (False, True):
        r = R.member(kind, p, d, L, lcr, F, ltb=ltb, sway=sway, G=G)
        if r["near"] or r["class"] == 4 or any(c == 4 for c, _ in r["sections"]):
            ctx.undefined += 1
            return
        tt = 20 * t
        ctx.eq(m.design(sway=sway), r["design"], "design", w + f": governing utilisation (sway {sway})", tt)
        st = m.stability
        if r["NEd"] < 0:
            want = {"buck_y": r["buck"][0], "buck_z": r["buck"][1], "bc_y": r["bc"][0], "bc_z": r["bc"][1]}
        else:
            want = {"buck_y": 0, "buck_z": 0, "bc_y": 0, "bc_z": 0}
        for k, v in want.items():
            ctx.eq(st[k], v, "stability", w + f": {k} (sway {sway})", tt)
        ctx.eq(m.check_buckling(), r["buck"], "buckling", w + ": buckling utilisation", tt)
        for load in ("uniform", "point"):
            q = R.member(kind, p, d, L, lcr, F, ltb=ltb, sway=sway, load=load, G=G)
            ctx.eq(m.check_beamcolumn(sway=sway, load=load), q["bc"], "beam-column", w + f": beam-column utilisation, sway {sway}, {load} load", tt)
            for cls in (1, 3):
                q = R.member(kind, p, d, L, lcr, F, ltb=ltb, sway=sway, load=load, cls=cls, G=G)
                ctx.eq(m.check_beamcolumn(sway=sway, load=load, section_class=cls), q["bc"], "beam-column-class",
                       w + f": beam-column utilisation with class {cls}, sway {sway}, {load} load", tt)
        if kind in ("I", "CustomI", "WI"):
            ctx.eq(m.check_LT_buckling(), r["LT"], "LT", w + ": lateral-torsional utilisation", tt)
            for meth in ("general", "specific"):
                ctx.eq(m.LT_buckling_strength(m.mcrit(), meth), r["Mb"][meth], "MbRd", w + f": {meth} MbRd", tt)
            ctx.eq(m.MbRd, r["Mb"]["specific"], "MbRd", w + ": MbRd", tt)


def run_des(case, ctx):
    from metku.structures.steel.steel_member import SteelMember
    kind, d = get(case["sec"], case["fy"])
    p = S.ref(kind, d)
    s = S.make(kind, d)
    npl, mpl = p["A"] * p["fy"], p["Wpl"][0] * p["fy"]
    for ltb in ((False, True) if kind in ("I", "WI") else (False,)):
        m = SteelMember(s, case["L"], Lcr=case["lcr"], LT_buckling=ltb)
        for ms in MSETS:
            F = forces_of(case["nf"], ms, npl, mpl)
            m.clear_sections()
            for loc, N, M, V in F:
                m.add_section(ned=N, myed=M, vzed=V, loc=loc)
            cmp_design(ctx, m, kind, p, d, case["L"], case["lcr"], F, T0.get(kind, 1e-4), f"{case} LTB={ltb} M={ms}", ltb, s.G)
            ctx.state((case, ltb, ms))


# ---------------------------------------------------------------- histories
OPS = [["N", -0.5], ["N", 0.2], ["M", 0.4], ["M", 0.0], ["moments", 0.5, -0.2], ["len", 6000], ["lcr", [0.7, 0.5]], ["lcrz", 2.0], ["steel", "S460M"], ["dim"], ["clear"], ["mid"], ["design"], ["ltb"]]
HSEC = {"rhs": ("RHS", dict(H=250, B=150, T=8)), "ipe": ("I", dict(H=300, B=150, tf=10.7, tw=7.1, r=15)), "wi": ("WI", dict(h=400, tw=8, bt=220, bb=220, tt=14, tb=14, a=4)),
        "cst": ("CustomI", dict(H=330, B=160, tf=12, tw=8, r=12)), "chs": ("CHS", dict(D=168.3, T=5))}
EDIT = {"RHS": [("B", 100)], "WI": [("tf", 41), ("b", 180), ("tw", 21)], "CustomI": [("H", 180)], "I": [], "CHS": []}


def hist_cases(tier):
    for k in HSEC:
        ops = [o for o in OPS if not (o[0] == "ltb" and k in ("rhs", "chs")) and not (o[0] == "dim" and not EDIT[HSEC[k][0]])]
        for w in histories(ops, 4 if tier == "thorough" and k != "cst" else 3, lambda w, a: not w or w[-1] != a, mindepth=1):
            yield {"sec": k, "ops": w}


def run_hist(case, ctx):
    from metku.structures.steel.steel_member import SteelMember
    kind, d = HSEC[case["sec"]]
    d = dict(d, fy="S355")
    s = S.make(kind, d)
    p = S.ref(kind, d)
    npl, mpl = p["A"] * p["fy"], p["Wpl"][0] * p["fy"]
    L, lcr, ltb = 3000, [1.0, 1.0], False
    m = SteelMember(s, L, Lcr=list(lcr))
    F = {0: [-0.3 * npl, 0.3 * mpl], 0.5: [-0.3 * npl, -0.2 * mpl], 1: [-0.3 * npl, 0.1 * mpl]}
    for loc, (N, M) in F.items():
        m.add_section(ned=N, myed=M, loc=loc)
    for op in case["ops"]:
        if op[0] == "N":
            m.ned = op[1] * npl
            for f in F.values():
                f[0] = op[1] * npl
        elif op[0] == "M":
            m.myed = op[1] * mpl
            for f in F.values():
                f[1] = op[1] * mpl
        elif op[0] == "moments":
            for loc, x in ((0, op[1]), (1, op[2])):
                if loc in F:
                    m.sections[loc]["My"] = x * mpl
                    F[loc][1] = x * mpl
        elif op[0] == "len":
            m.length = L = op[1]
        elif op[0] == "lcr":
            lcr = list(op[1])
            import numpy as np
            m.lcr = np.array(op[1])
        elif op[0] == "lcrz":
            lcr[1] = op[1]
            m.lcr[1] = op[1]
        elif op[0] == "steel":
            d["fy"] = op[1]
            s.material = op[1]
        elif op[0] == "dim":
            for k, v in EDIT[kind]:
                setattr(s, k, v)
                for q in {"b": ("bt", "bb"), "tf": ("tt", "tb")}.get(k, (k,)):
                    if q in d:  # the plain dimensions follow
                        d[q] = v
            if kind == "CustomI":
                s.cross_section_properties()
        elif op[0] == "clear":
            m.clear_sections()
            m.add_section(ned=-0.2 * npl, myed=0.35 * mpl, loc=0.5)
            F = {0.5: [-0.2 * npl, 0.35 * mpl]}
        elif op[0] == "mid":
            m.add_section(ned=-0.6 * npl, myed=-0.5 * mpl, loc=0.5)
            F[0.5] = [-0.6 * npl, -0.5 * mpl]
        elif op[0] == "design":
            m.design()
            m.check_beamcolumn(section_class=3)
        elif op[0] == "ltb":
            m.LTB = ltb = not ltb
        p = S.ref(kind, d)
    FF = [(loc, N, M, 0.0) for loc, (N, M) in F.items()]
    w = f"{kind} after {case['ops']}"
    r = R.member(kind, p, d, L, lcr, [], G=s.G)
    cmp(ctx, m, r, T0.get(kind, 1e-4), w, FF)
    cmp_design(ctx, m, kind, p, d, L, lcr, FF, T0.get(kind, 1e-4), w, ltb, s.G)
    ctx.state((case["sec"], canon(d), L, canon(lcr), ltb, canon(FF)))


# ---------------------------------------------------------------- monosymmetric welded beams
def mono_cases(tier):
    yield from product_cases(h=[300, 700], tw=[6, 10], bt=[150, 300], bb=[150, 220], tt=[10, 20], tb=[10, 16], L=[3000, 9000])


def run_mono(case, ctx):
    from metku.structures.steel.steel_member import SteelMember
    d = dict({k: case[k] for k in ("h", "tw", "bt", "bb", "tt", "tb")}, fy="S355", a=4)
    p = S.ref("WI", d)
    s = S.make("WI", d)
    zs, zj = R.wi_zs_zj(d, p)
    ctx.eq([s.zs, s.shear_centre()], [zs, zs], "zs", f"{d}: shear centre", 1e-6, 1e-7 * d["h"])
    ctx.eq([s.zj, s.wagners_factor()], [zj, zj], "zj", f"{d}: Wagner's factor", 1e-6, 1e-7 * d["h"])
    m = SteelMember(s, case["L"], symmetry="mono")
    for C in ((1.12, 0.45, 0.525), (1.0, 0.0, 1.0)):
        for k in ((1, 1), (0.5, 1)):
            # load applied at the centroid
            ctx.eq(m.mcrit(C=list(C), k=list(k)), R.mcr(p["I"][1], p["Iw"], p["It"], case["L"], C, k, -zs, zj), "Mcr-mono", f"{case} C={C} k={k}: critical moment", 1e-6)
    ctx.state(case)


# ---------------------------------------------------------------- formulas of 6.3 and Annex B
def form_cases(tier):
    v = [-1.0, -0.7, -0.4, -0.1, 0.0, 0.25, 0.6, 1.0]
    for a in v:
        for b in v:
            yield {"f": "cm", "a": a * 120e6, "b": b * 120e6}
    for cls in (1, 2, 3):
        for un in (0.0, 0.1, 0.5, 0.95):
            yield {"f": "k", "cls": cls, "un": un}
    yield {"f": "chi"}


def run_form(case, ctx):
    from metku.eurocodes.en1993 import en1993_1_1 as E
    if case["f"] == "cm":
        a, b = case["a"], case["b"]
        for load in ("uniform", "point"):
            ctx.eq(E.equivalent_moment_factor([a, b], None, load), R.cm(a, b, None, load), "Cm", f"Cm of {a}, {b}", 1e-12)
            for x in (-3.0, -1.2, -1.0, -0.8, -0.5, -0.2, 0.0, 0.05, 0.3, 0.5, 0.9, 1.1, 2.5):
                ms = x * 120e6
                ctx.eq(E.equivalent_moment_factor([a, b], ms, load), R.cm(a, b, ms, load), "Cm", f"Cm of {a}, {ms}, {b}, {load} load", 1e-12)
                ctx.state((a, b, ms, load))
    elif case["f"] == "k":
        cls, un = case["cls"], case["un"]
        for lam in (0.1, 0.2, 0.3, 0.39, 0.41, 0.7, 0.99, 1.01, 1.6, 3.0):
            for c in (0.4, 0.6, 0.9, 1.0):
                if lam >= 0.2 or cls == 3:
                    ky = R.k_yy(un, lam, c, cls)
                    ctx.eq(E.kyy(un, lam, c, cls), ky, "kyy", f"kyy n={un} lambda={lam} Cm={c} class {cls}", 1e-12)
                    ctx.eq(E.kzz(un, lam, c, cls), R.k_zz(un, lam, c, cls, "hollow"), "kzz", f"kzz hollow n={un} lambda={lam} class {cls}", 1e-12)
                    ctx.eq(E.kzz(un, lam, c, cls, "I"), R.k_zz(un, lam, c, cls, "I"), "kzz", f"kzz I n={un} lambda={lam} class {cls}", 1e-12)
                ctx.eq(E.kyz(c, cls), (0.6 if cls < 3 else 1.0) * c, "kyz", f"kyz class {cls}", 1e-12)
                for tor in (False, True):
                    ctx.eq(E.kzy(0.8, un, lam, c, cls, tor), R.k_zy(0.8, un, lam, c, cls, tor), "kzy", f"kzy n={un} lambda={lam} CmLT={c} class {cls} torsion {tor}", 1e-12)
                    ctx.state((cls, un, lam, c, tor))
        for um in (0.2, 0.7):
            for x in (0.5, 1.0):
                ctx.eq(E.beam_column_utility(un, um, 0.8, x, 0.15), un + 0.8 * um / x + 0.15, "utility", "beam-column utilisation", 1e-12)
    else:
        for al in list(R.CURVE.values()):
            for lam in (0.01, 0.1, 0.2, 0.21, 0.5, 1.0, 1.5, 3.0, 6.0):
                ctx.eq(E.buckling_reduction_factor(lam, al), R.chi(lam, al), "chi", f"reduction factor lambda={lam} alpha={al}", 1e-12)
        ctx.eq([E.buckling_curve[k] for k in R.CURVE], list(R.CURVE.values()), "curves", "imperfection factors", 1e-12)
        for h in (1.0, 3.9, 4.0, 4.1, 6.0, 8.9, 9.0, 9.1, 30.0):
            for n in (1, 2, 3, 10):
                ctx.eq(E.sway_imperfection(h, n), 1 / 200 * min(max(2 / h ** 0.5, 2 / 3), 1) * (0.5 * (1 + 1 / n)) ** 0.5, "sway", f"sway imperfection h={h} m={n}", 1e-12)
        for A, Ncr in ((5e3, 1e6), (1e4, 8e6)):
            ctx.eq([E.slenderness(A, 355, Ncr), E.buckling_strength(A, 355, 0.7)], [(A * 355 / Ncr) ** 0.5, 0.7 * A * 355], "strength", "slenderness and strength", 1e-12)


def families(tier):
    return [
        Family("resistance", lambda: mem_cases(tier), run_mem, "sections x grades x lengths x buckling lengths; critical moments for three-factor sets, restraints and load positions", "complete product"),
        Family("design", lambda: des_cases(tier), run_des, "members x axial force x moment diagrams x sway x load kind x class, all diagrams one after another on one member", "%d diagrams" % len(MSETS)),
        Family("histories", lambda: hist_cases(tier), run_hist, "all histories of force, length, buckling length, steel and dimension changes and designs", "depth %d" % (4 if tier == "thorough" else 3)),
        Family("monosymmetric", lambda: mono_cases(tier), run_mono, "monosymmetric welded sections", "complete product"),
        Family("formulas", lambda: form_cases(tier), run_form, "interaction and moment factors", "complete product"),
    ]
