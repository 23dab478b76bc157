"""P14: cross-section classes of Table 5.2 of EN 1993-1-1."""
from ..core import Family, product_cases, canon
from ..drv import sections as S
from ..ref import ec3 as R

FY = [220, 235, 275, 355, 420, 460, 500, 700]
GRADE = {220: "S220GD", 235: "S235", 275: "S275", 355: "S355", 420: "S420", 460: "S460M", 500: "S500", 700: "S700"}


# ---------------------------------------------------------------- limits of the table
def limit_cases(tier):
    for f in ("bend", "comp", "out", "chs", "both"):
        for fy in FY:
            for as_fy in (False, True):
                if as_fy and f in ("bend", "chs"):
                    continue
                yield {"f": f, "fy": fy, "as_fy": as_fy}


ALPHA = [0, 0.01, 0.1, 0.3, 0.45, 0.5, 0.5000001, 0.55, 0.7, 0.9, 1.0]
PSI = [1.0, 0.5, 0.0, -0.3, -0.8, -0.999, -1.0, -1.001, -1.5, -2.0, -3.0]


def run_limits(case, ctx):
    from metku.eurocodes.en1993 import en1993_1_1 as E
    fy, f = case["fy"], case["f"]
    e = R.eps(fy)
    ctx.eq(E.epsilon(fy), e, "epsilon", "epsilon", 1e-12)
    arg = fy if case["as_fy"] else e
    lims = {"bend": [72, 83, 124], "comp": [33, 38, 42], "out": [9, 10, 14], "chs": [50, 70, 90]}.get(f)
    if f != "both":
        fun = {"bend": E.internal_part_in_bending, "comp": E.internal_part_in_compression, "out": E.outstand_part_in_compression, "chs": E.CHS_class}[f]
        ref = {"bend": R.internal_bending, "comp": R.internal_compression, "out": R.outstand_compression, "chs": R.chs}[f]
        k = e * e if f == "chs" else e
        for l in lims:
            # the limit itself belongs to the better class (exact only where epsilon is 1)
            for m in (0.5, 0.97, 1 - 1e-7, 1 + 1e-7, 1.03, 2.5) + ((1.0,) if fy == 235 else ()):
                r = l * k * m
                ctx.expect(fun(r, arg) == ref(r, e)[0], "limit-" + f, f"{f} c/t={r} fy={fy}: class {fun(r, arg)}, table {ref(r, e)[0]}")
                ctx.state((f, fy, r))
        return
    for a in ALPHA:
        for p in PSI:
            rs = [10, 30, 50, 100, 400]
            for big, small in ((396, 36), (456, 41.5)):
                if a > 0.5:
                    rs += [big * e / (13 * a - 1) * m for m in (1 - 1e-7, 1 + 1e-7)]
                elif a > 0:
                    rs += [small * e / a * m for m in (1 - 1e-7, 1 + 1e-7)]
            l3 = 42 * e / (0.67 + 0.33 * p) if p > -1 else 62 * e * (1 - p) * (-p) ** 0.5
            rs += [l3 * m for m in (1 - 1e-7, 1 + 1e-7)]
            for r in rs:
                got, want = E.internal_part_comp_bend(r, arg, a, p), R.internal_both(r, e, a, p)[0]
                ctx.expect(got == want, "limit-both", f"c/t={r} fy={fy} alpha={a} psi={p}: class {got}, table {want}")
                ctx.state((a, p, fy, r))


# ---------------------------------------------------------------- sections
SEC = {
    "RHS": dict(H=[80, 150, 250, 400], B=[80, 150, 200, 300], T=[3, 4, 6, 8, 12.5]),
    "SHS": dict(H=[100, 200, 400], T=[3, 5, 8]),
    "CHS": dict(D=[88.9, 219.1, 508], T=[2.5, 4, 6.3, 10]),
    "CustomCHS": dict(D=[219.1, 508], T=[4, 6.3]),
    "I": dict(H=[150, 300, 600, 1000], B=[150, 300], tf=[6, 10, 20], tw=[4, 7, 12], r=[9, 21]),
    "WI": dict(h=[300, 700, 1500], tw=[5, 8, 15], bt=[150, 400], bb=[150, 400, 500], tt=[8, 16], tb=[8, 16, 25], a=[3, 5]),
}
NF = [0.0, -1e-3, -0.02, -0.1, -0.3, -0.6, -0.95, -1.3, 1e-6, 1e-3, 0.02, 0.1, 0.3, 0.6, 0.95]
MF = [0.0, 0.05, -0.05, 0.5, -0.5, 1.0, -1.0]


def sec_cases(tier):
    for kind, ax in SEC.items():
        for k, d in enumerate(product_cases(**ax)):
            if kind == "RHS" and min(d["H"], d["B"]) <= 2 * S.radius(d["T"]):
                continue
            if kind == "WI" and (d["bt"], d["tt"]) != (d["bb"], d["tb"]) and d["a"] == 3:
                continue
            for fy in (FY if tier == "thorough" else [FY[k % 8], FY[(k + 3) % 8]]):
                yield {"kind": kind, "d": dict(d, fy=GRADE[fy])}


def run_sec(case, ctx):
    kind, d = case["kind"], case["d"]
    p = S.ref(kind, d)
    s = S.make(kind, d)
    mono = kind == "WI" and (d["bt"], d["tt"]) != (d["bb"], d["tb"])
    nrd, mrd = p["A"] * p["fy"], p["Wel"][0] * p["fy"]
    for nf in NF:
        for mf in MF:
            if mono and (nf != 0 or mf < 0):
                continue
            N, M = nf * nrd, mf * mrd
            want, near = R.section_class(kind, p, d, N, M)
            if near:
                ctx.undefined += 1
                continue
            s.Ned, s.Med = N, [M, 0.0]
            got = s.section_class()
            ctx.expect(got == want, "class", f"{kind} {d} N={nf} NRd, M={mf} Mel: class {got}, EN 1993-1-1: {want}", nf=nf, mf=mf)
            ctx.expect(s.C == got and s.section_class(verb=True) == got, "class-repeat", f"{kind} {d} N={nf} M={mf}: class changes when asked again")
            ctx.state((kind, got, canon(nf), canon(mf), canon(d)))
    # parts on their own, after all those force states
    s.Ned, s.Med = 0.0, [0.0, 0.0]
    if kind in ("RHS", "SHS", "I") and True:
        q = R.parts(kind, p, d)
        e = R.eps(p["fy"])
        fl = R.outstand_compression(q["rf"], e) if q["out"] else R.internal_compression(q["rf"], e)
        for got, (want, near), w in ((s.flange_class(), fl, "flange"), (s.web_class_comp(), R.internal_compression(q["rw"], e), "web in compression"),
                                     (s.web_class_bend(), R.internal_bending(q["rw"], e), "web in bending")):
            if not near:
                ctx.expect(got == want, "part", f"{kind} {d}: {w} class {got}, table {want}")


def families(tier):
    return [
        Family("limits", lambda: limit_cases(tier), run_limits, "every row of Table 5.2 x steel grade x c/t on both sides of every limit", "8 grades x all limits"),
        Family("sections", lambda: sec_cases(tier), run_sec, "profile grid x grade x axial force x bending moment, all force states one after another on one object",
               "%d force states per section" % (len(NF) * len(MF))),
    ]
