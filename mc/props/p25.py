"""P25: timber members by EN 1995-1-1 (and charring by EN 1995-1-2): strengths, section checks, buckling, tapered and curved beams."""
import importlib
import itertools
import math
from ..core import Family, canon
from ..ref import timber as R

LOCS = [0.0, 0.25, 0.5, 0.75, 1.0]
LDC = ("perm", "lt", "mt", "st", "inst")
KM = 0.7


def mods():
    importlib.import_module("metku.framefem.framefem")
    return (importlib.import_module("metku.structures.timber.timber_member"), importlib.import_module("metku.sections.timber.timber_section"),
            importlib.import_module("metku.materials.timber_data"))


def char(t, bn):
    """unprotected: notional charring and zero-strength layer"""
    return t * bn + min(t / 20.0, 1.0) * 7.0


def beta_n(mat):
    k = R.kind(mat)
    d = R.data(mat)
    if k == "lvl":
        return 0.7 if d["rhok"] >= 480 else 0.75
    if mat.startswith("D"):
        return 0.55 if d["rhok"] >= 450 else 0.7
    return 0.8 if k == "solid_timber" else 0.7


class Mem:
    """a member together with the data that define it"""

    def __init__(self, **kw):
        S = dict(mat="C24", dir="edge", sc=1, ldc="mt", B=95.0, H=220.0, L=4000.0, sy=[], sz=[], beta=[0.9, 1.0], var=False, edge="compression", type="column", R=0, sides=3, forces=[])
        S.update(kw)
        self.S = S
        TM, TS, TD = mods()
        sec = TS.TimberSection(S["B"], S["H"], TD.T[S["mat"]], lvldir=S["dir"], sides_on_fire=S["sides"])
        self.m = TM.TimberMember(sec, sec.material, S["L"], S["ldc"], S["sc"], mtype=S["type"], varnished=S["var"], lateral_support_y=list(S["sy"]), lateral_support_z=list(S["sz"]),
                                 edge_load=S["edge"], beta=S["beta"])
        sec.timber_member = self.m
        if S["type"] == "beam":
            self.parent()
        self.m.R = S["R"]
        self.m.calc_l_c()
        for f, x in zip(S["forces"], LOCS):
            self.m.add_section(*f, loc=x)

    def parent(self):
        m = self.m

        class Node:
            pass

        class P:
            pass
        p = P()
        p.member, p.length = m, self.S["L"]
        for k, x in (("n1", 0.0), ("n2", self.S["L"])):
            n = Node()
            n.parents, n.coord = [p], [x, 0.0]
            setattr(p, k, n)
        m.parent, m.nodes = p, {}

    def bh(self):
        S = self.S
        d = char(S["R"], beta_n(S["mat"]))
        return max(S["B"] - 2 * d, 1e-5), max(S["H"] - d * (2 if S["sides"] == 4 else 1), 1e-5)


def kh_bounds(S, b, h, N, My, Mz):
    """admissible size factors of bending: (least, greatest)"""
    d = R.data(S["mat"])
    k = R.kind(S["mat"])
    if k == "lvl":
        v = min(1.2, (300.0 / h) ** d["s"]) if My or Mz else 1.0
        return v, v
    if k == "solid_timber" and d["rhok"] > 700:
        return 1.0, 1.0
    ref, ex, cap = (150.0, 0.2, 1.3) if k == "solid_timber" else (600.0, 0.1, 1.1)
    f = lambda x: min(cap, (ref / x) ** ex) if x < ref else 1.0
    dims = ([h] if My else []) + ([b] if Mz else [])
    return f(max(dims + ([max(b, h)] if N else []))), f(max(dims))


def judge_strengths(M, ctx, where):
    S, m = M.S, M.m
    d, k = R.data(S["mat"]), R.kind(S["mat"])
    b, h = M.bh()
    f = R.kmod(S["sc"], S["ldc"]) / R.GAMMA[k]
    N = max((abs(x[0]) for x in S["forces"]), default=0)
    My = max((abs(x[1]) for x in S["forces"]), default=0)
    Mz = max((abs(x[2]) for x in S["forces"]), default=0)
    ctx.step()
    ctx.eq([float(m.kmod), float(m.gammaM), float(m.get_kdef())], [R.kmod(S["sc"], S["ldc"]), R.GAMMA[k], R.kdef(S["sc"])], "factors", f"{where}: kmod, gammaM, kdef", 1e-12, 1e-12)
    ctx.eq([float(m.h), float(m.b), float(m.A)], [h, b, b * h], "section", f"{where}: depth, width, area", 1e-9, 1e-9)
    ctx.eq([float(x) for x in (m.Iy, m.Iz)] + [float(x) for x in m.section.get_Wel(0.5)], [b * h ** 3 / 12, h * b ** 3 / 12, b * h * h / 6, h * b * b / 6], "section", f"{where}: I and W", 1e-9, 1e-9)
    ctx.eq([float(m.fc0d), float(m.fvd)], [f * d["fc0k"], f * d["fvk"]], "strength", f"{where}: compression and shear strength", 1e-9, 1e-9)
    if k != "lvl":
        ctx.eq([float(m.fc90d), float(m.ft90d)], [f * d["fc90k"], f * d["ft90k"]], "strength", f"{where}: strength perpendicular to the grain", 1e-9, 1e-9)
    else:
        flat = S["dir"] == "flat"
        ctx.eq([float(m.fc90d), float(m.ft90edged), float(m.fr0d)], [f * d["fc90flatk" if flat else "fc90edgek"], f * d["ft90edgek"], f * d["fr0k"]], "strength", f"{where}: LVL strengths", 1e-9, 1e-9)
    ctx.eq([float(m.unmodified_ft0d)], [f * d["ft0k"]], "strength", f"{where}: unmodified tension strength", 1e-9, 1e-9)
    if My or Mz:
        fk = d["fm0flatk"] if k == "lvl" and S["dir"] == "flat" else d["fmk"]
        lo, hi = kh_bounds(S, b, h, N, My, Mz)
        v = float(m.fmd)
        ctx.expect(f * fk * lo * (1 - 1e-9) <= v <= f * fk * hi * (1 + 1e-9), "bending-strength", f"{where}: bending strength {v:.6g}, should be {f * fk * lo:.6g}..{f * fk * hi:.6g}")
    if max((x[0] for x in S["forces"]), default=0) > 0:
        if k == "lvl":
            kk = min(1.1, (3000.0 / S["L"]) ** (d["s"] / 2))
        elif k == "solid_timber":
            x = max(b, h)
            kk = min(1.3, (150.0 / x) ** 0.2) if x < 150 and d["rhok"] <= 700 else 1.0
        else:
            x = max(b, h)
            kk = min(1.1, (600.0 / x) ** 0.1) if x < 600 else 1.0
        v = float(m.ft0d)
        lo = kk
        if k != "lvl" and (My or Mz):
            lo = min(kk, kh_bounds(S, b, h, N, My, Mz)[0])
        ctx.expect(f * d["ft0k"] * lo * (1 - 1e-9) <= v <= f * d["ft0k"] * kk * (1 + 1e-9), "tension-strength", f"{where}: tension strength {v:.6g}, should be {f * d['ft0k'] * lo:.6g}..{f * d['ft0k'] * kk:.6g}")
    ctx.state(canon([S["mat"], f, b, h]))


def torsion(b, h):
    h, b = max(b, h), min(b, h)
    s = sum(math.tanh(n * math.pi * h / 2 / b) / n ** 5 for n in range(1, 40, 2))
    a = 1 / 3 - 64 / math.pi ** 5 * (b / h) * s
    c = sum(1 / (n * n * math.cosh(min(n * math.pi * h / 2 / b, 700))) for n in range(1, 40, 2))
    return a * h * b ** 3, a / (1 - 8 / math.pi ** 2 * c) * h * b * b


def segs(L, supp):
    p = [0.0] + sorted(supp) + [1.0]
    return list(zip(p, p[1:]))


def judge_member(M, ctx, where):
    S, m = M.S, M.m
    d, k = R.data(S["mat"]), R.kind(S["mat"])
    b, h = M.bh()
    fm, ft, fc, fv = float(m.fmd), float(m.ft0d), float(m.fc0d), float(m.fvd)
    A, W = b * h, (b * h * h / 6, h * b * b / 6)
    J, Wt = torsion(b, h)
    Ji = float(m.I_tor(0.5))
    ctx.step()
    ctx.eq(Ji, J, "torsion", f"{where}: torsion constant", 0.015, 0)
    F = S["forces"]
    sig = [(f[0] / A, f[1] / W[0], f[2] / W[1]) for f in F]
    kcr = 0.67 if k != "lvl" and not S["var"] else 1.0
    for n, f in enumerate(F):
        N, my, mz, vy, vz, T = f
        s0, sy, sz = abs(N) / A, abs(my) / W[0], abs(mz) / W[1]
        un = s0 / (ft if N > 0 else fc)
        um = max(sy + KM * sz, KM * sy + sz) / fm
        r = [float(x) for x in m.check_section(n)]
        ctx.eq(r[0], un, "normal", f"{where}: normal force at {n}", 1e-8, 1e-12)
        ctx.eq(r[2], um, "bending", f"{where}: bending at {n}", 1e-8, 1e-12)
        if k != "lvl" or S["sc"] != 1:
            q = n
            if S["type"] == "beam":
                s = h / S["L"]
                if LOCS[n] < s:
                    q = max(i for i in range(5) if LOCS[i] <= s)
                elif LOCS[n] > 1 - s:
                    q = min(i for i in range(5) if LOCS[i] >= 1 - s)
            ctx.eq(r[1], 1.5 * max(abs(F[q][3]), abs(F[q][4])) / (b * h * kcr) / fv, "shear", f"{where}: shear at {n}", 1e-8, 1e-12)
            ctx.eq(float(m.check_shear_force(n, reduce=False)), 1.5 * max(abs(vy), abs(vz)) / (b * h * kcr) / fv, "shear", f"{where}: shear without reduction at {n}", 1e-8, 1e-12)
        ks = min(1.3, 1 + 0.05 * max(b, h) / min(b, h))
        ctx.eq(r[3], abs(T) / Wt / ks / fv, "torsion", f"{where}: torsion at {n}", 0.02, 1e-12)
        if N >= 0:
            ctx.eq(r[4], un + um, "tension-bending", f"{where}: bending and tension at {n}", 1e-8, 1e-12)
        if N <= 0:
            ctx.eq(r[5], un ** 2 + um, "compression-bending", f"{where}: bending and compression at {n}", 1e-8, 1e-12)
        ctx.step(6)
    # buckling
    bc = 0.2 if k == "solid_timber" else 0.1
    bet = S["beta"] if isinstance(S["beta"], list) else [S["beta"]] * 2
    KC, UB = [], []
    for ax, supp in ((0, S["sy"]), (1, S["sz"])):
        i = (h, b)[ax] / math.sqrt(12.0)
        kcs, ub = [], []
        for lo, hi in segs(S["L"], supp):
            lr = bet[ax] * (hi - lo) * S["L"] / i / math.pi * math.sqrt(d["fc0k"] / d["E005"])
            kk = 0.5 * (1 + bc * (lr - 0.3) + lr * lr)
            kc = 1.0 if lr <= 0.3 else 1 / (kk + math.sqrt(kk * kk - lr * lr))
            kcs.append(kc)
            ins = [j for j, x in enumerate(LOCS) if lo <= x <= hi]
            c = min(sig[j][0] for j in ins)
            sy = max(abs(sig[j][1]) for j in ins)
            sz = max(abs(sig[j][2]) for j in ins)
            ub.append(abs(c) / (kc * fc) + ((sy + KM * sz) if ax == 0 else (KM * sy + sz)) / fm if c < 0 else 0.0)
        KC.append(kcs)
        UB.append(max(ub))
    g = m.k_c()
    ctx.eq([float(x) for x in g[0]] + [float(x) for x in g[1]], KC[0] + KC[1], "buckling-factor", f"{where}: buckling factors", 1e-7, 1e-12)
    ctx.eq([float(x) for x in m.check_buckling()], UB, "buckling", f"{where}: buckling", 1e-7, 1e-12)
    # lateral-torsional buckling
    best = 0.0
    for s, (lo, hi) in enumerate(segs(S["L"], S["sz"])):
        lef = 0.9 * (hi - lo) * S["L"] + (2 * h if S["edge"] == "compression" else -0.5 * h)
        if lef <= 0.1 * h:
            ctx.undefined += 1
            return
        smc = math.pi * math.sqrt(d["E005"] * h * b ** 3 / 12 * (d["G005"] if k != "lvl" else d["Gedge005"]) * Ji) / lef / W[0]
        lm = math.sqrt(d["fmk"] / smc)
        kcr_ = 1.0 if lm <= 0.75 else 1.56 - 0.75 * lm if lm <= 1.4 else 1 / lm ** 2
        for j, x in enumerate(LOCS):
            if lo <= x <= hi:
                ctx.eq(float(m.k_crit(s, 1, x)), kcr_, "ltb-factor", f"{where}: lateral-torsional factor", 1e-7, 1e-12)
                u = abs(sig[j][1]) / (kcr_ * fm)
                best = max(best, u * u - sig[j][0] / (KC[1][s] * fc) if F[j][0] < 0 else u)
    if not any(0 < -f[0] <= 0.1 for f in F):
        ctx.eq(float(m.check_LT_buckling()), best, "ltb", f"{where}: lateral-torsional buckling", 1e-7, 1e-12)
    # overall
    rows = [[float(x) for x in m.section_resistance(n)] for n in range(5)]
    worst = max(max(r) for r in rows + [UB])
    if S["type"] == "beam":
        worst = max(worst, best)
    ctx.eq(float(m.design()), worst, "design", f"{where}: governing utilization", 1e-7, 1e-12)
    ctx.state(canon([b, h, worst]))


def field(N, my, mz, v, T, shape):
    out = []
    for x in LOCS:
        p = 4 * x * (1 - x) if shape == "span" else 1 - 1.5 * x
        out.append([N * (1 - 0.3 * x), my * p, mz * p, v * 0.2 * (1 - 2 * x), v * (1 - 2 * x), T * (1 - x)])
    return out


# ------------------------------------------------------------- strengths
def strengths(tier):
    sizes = [(45.0, 95.0), (45.0, 220.0), (200.0, 45.0), (140.0, 140.0), (115.0, 630.0), (190.0, 540.0)]
    for mat in list(R.SOLID_TIMBER) + list(R.GLT) + list(R.LVL):
        for dr in (("edge", "flat") if mat in R.LVL else ("edge",)):
            for sc, ldc in itertools.product((1, 2, 3), LDC):
                for B, H in sizes:
                    yield {"mat": mat, "dir": dr, "sc": sc, "ldc": ldc, "B": B, "H": H}


def run_strengths(case, ctx):
    for N, my, mz in itertools.product((0.0, 2e4, -2e4), (0.0, 3e6, -3e6), (0.0, 1e6)):
        for L in ((2500.0, 6000.0) if case["mat"] in R.LVL else (4000.0,)):
            M = Mem(**case, L=L, forces=field(N, my, mz, 1e3, 0.0, "span"))
            judge_strengths(M, ctx, f"{case} N={N} My={my} Mz={mz} L={L}")


# --------------------------------------------------------------- members
def members(tier):
    mats = [("C24", "edge"), ("D40", "edge"), ("GL30c", "edge"), ("Kerto_S", "edge")]
    if tier != "quick":
        mats += [("C14", "edge"), ("D70", "edge"), ("GL24h", "edge"), ("Kerto_Q_27_69", "edge"), ("Kerto_T", "flat")]
    sizes = [(45.0, 145.0), (100.0, 420.0), (160.0, 90.0)] + ([(90.0, 90.0), (66.0, 360.0), (42.0, 225.0), (115.0, 405.0)] if tier != "quick" else [])
    sup = [[], [0.25, 0.75], [0.3]] + ([[0.5]] if tier != "quick" else [])
    for (mat, dr), (B, H), L in itertools.product(mats, sizes, (1500.0, 4800.0)):
        for sy, sz in itertools.product(sup, sup):
            if tier == "quick" and sy and sz and sy != sz:
                continue
            for typ, edge in (("column", "compression"), ("beam", "compression"), ("beam", "tension")):
                yield {"mat": mat, "dir": dr, "B": B, "H": H, "L": L, "sy": sy, "sz": sz, "type": typ, "edge": edge, "sc": 2 if mat in R.LVL else 1}


def run_members(case, ctx):
    a = case["B"] * case["H"]
    w = a * case["H"] / 6
    wz = a * case["B"] / 6
    for N, my, mz, T in itertools.product((0.0, 2.0 * a, -2.0 * a), (0.0, 5.0 * w, -5.0 * w), (0.0, 2.0 * wz, -2.0 * wz), (0.0, -0.2 * w)):
        if T and (mz or not my):
            continue
        for shape in ("span", "end"):
            M = Mem(**case, beta=[0.9, 1.0] if my else 1.0, var=bool(T), forces=field(N, my, mz, -1.0 * a, T, shape))
            judge_member(M, ctx, f"{case} N={N:g} My={my:g} Mz={mz:g} T={T:g} {shape}")


# ------------------------------------------------------------- histories
EDITS = {"mat": ["GL30c", "C40", "D30"], "sc": [3], "ldc": ["inst", "perm"], "B": [140.0], "H": [405.0, 120.0], "L": [2700.0], "sy": [[0.5]], "sz": [[0.25, 0.75]], "beta": [0.7, [1.0, 0.5]],
         "R": [12, 30], "forces": ["span-", "end"], "edge": ["tension"], "var": [True]}


def hist_cases(tier):
    al = [(k, v) for k, vs in EDITS.items() for v in vs]
    n = 2 if tier == "quick" else 3
    for typ in ("column", "beam"):
        for seq in itertools.product(al, repeat=n):
            if len({k for k, _ in seq}) < n and not (n == 2):
                continue
            yield {"type": typ, "edits": [list(e) for e in seq]}


def run_hist(case, ctx):
    M = Mem(type=case["type"], forces=field(-3e4, 4e6, 2e5, 5e3, 1e4, "span"))
    S, m = M.S, M.m
    TD = mods()[2]

    def look(where):
        judge_strengths(M, ctx, where)
        judge_member(M, ctx, where)
    look(f"{case} created")
    for k, (ed, v) in enumerate(case["edits"]):
        if ed == "mat":
            m.section.material = TD.T[v]
            m.material = m.section.material
        elif ed in ("sc", "ldc"):
            setattr(m, ed, v)
        elif ed == "B":
            m.b = v
        elif ed == "H":
            m.h = v
        elif ed == "L":
            m.length = v
            m.calc_l_c()
            if m.parent:
                m.parent.length = v
        elif ed in ("sy", "sz"):
            setattr(m, "lateral_support_y" if ed == "sy" else "lateral_support_z", list(v))
            m.calc_l_c()
        elif ed == "beta":
            m.beta = v
        elif ed == "R":
            m.R = v
        elif ed == "edge":
            m.edge_load = v
        elif ed == "var":
            m.varnished = v
        elif ed == "forces":
            v = field(3e4, -5e6, -3e5, 4e3, -2e4, "span") if v == "span-" else field(-5e4, 6e6, 0.0, 2e3, 0.0, "end")
            m.clear_sections()
            for f, x in zip(v, LOCS):
                m.add_section(*f, loc=x)
        S[ed] = v
        look(f"{case} after edit {k + 1}")


# --------------------------------------------- buckling length by supports
class Sup:
    pass


def ends(tier):
    kinds = ("Fixed", "XYHinged", "YHinged", "XHinged", None)
    for a, b in itertools.product(kinds, kinds):
        for sy, sz in itertools.product(([], [0.5], [0.25, 0.5]), repeat=2):
            yield {"ends": [a, b], "sy": sy, "sz": sz}


def run_ends(case, ctx):
    """the buckling lengths of a column do not depend on the direction in which it is drawn, and follow the current supports"""
    f2 = importlib.import_module("metku.frame2d.frame2d")

    def build(a, b, sy, sz):
        M = Mem(type="column", beta=None, sy=sy, sz=sz, forces=field(-1e4, 0.0, 0.0, 0.0, 0.0, "span"))
        M.parent()
        p = M.m.parent
        p.frame2d = Sup()
        sup = {}
        for i, (kind, n) in enumerate(((a, p.n1), (b, p.n2))):
            if kind:
                sup[i] = getattr(f2, kind + "Support")(list(n.coord))
        p.frame2d.supports = sup
        return M
    a, b = case["ends"]
    if not a and not b or {a, b} & {None} and {a, b} & {"YHinged", "XHinged"} or (a in ("YHinged", "XHinged") and b in ("YHinged", "XHinged")):
        ctx.undefined += 1  # no buckling length is defined for these
        return
    rev = lambda s: [round(1 - x, 9) for x in reversed(s)]
    one = [list(map(float, x)) for x in build(a, b, case["sy"], case["sz"]).m.Ln()]
    two = [list(map(float, x))[::-1] for x in build(b, a, rev(case["sy"]), rev(case["sz"])).m.Ln()]
    ctx.step(2)
    ctx.eq(one[0] + one[1], two[0] + two[1], "buckling-length", f"{case}: buckling lengths of the column drawn from either end", 1e-9, 1e-9)
    sway = {a, b} == {"Fixed", "YHinged"}
    tab = {frozenset(("Fixed",)): 0.7, frozenset(("XYHinged",)): 1.0, frozenset(("Fixed", "XYHinged")): 0.85, frozenset(("Fixed", "YHinged")): 2.2, frozenset(("XYHinged", "YHinged")): 2.0,
           frozenset(("Fixed", "XHinged")): 0.85, frozenset(("XYHinged", "XHinged")): 1.0, frozenset(("Fixed", None)): 2.2, frozenset(("XYHinged", None)): 2.0}
    for ax, s in ((0, case["sy"]), (1, case["sz"])):
        if not s:
            ctx.eq(one[ax], [tab[frozenset((a, b))] * 4000.0], "buckling-length", f"{case}: buckling length of an unbraced column", 1e-9, 1e-9)
        else:
            want = []
            for i, (lo, hi) in enumerate(segs(4000.0, s)):
                e = a if i == 0 else b if i == len(s) else "inner"
                be = (0.9 if ax == 0 else 1.0) if e == "inner" else 0.8
                want.append(be * (hi - lo) * 4000.0)
            ctx.eq(one[ax], want, "buckling-length", f"{case}: buckling lengths of a braced column with rigid ends", 1e-9, 1e-9)
    # the supports change after the buckling length has been asked
    M = build("Fixed", "Fixed", case["sy"], case["sz"])
    M.m.Ln()
    f = build(a, b, case["sy"], case["sz"]).m
    M.m.parent.frame2d.supports = f.parent.frame2d.supports
    again = [list(map(float, x)) for x in M.m.Ln()]
    ctx.eq(again[0] + again[1], one[0] + one[1], "buckling-length", f"{case}: buckling lengths after the supports were changed", 1e-9, 1e-9)
    ctx.state(canon(one))


# ------------------------------------------------------------------- fire
GYP = {"A": (12.5 * 0 + 13, False), "F": (15, True), "H": (9, False), "AA": (13 + 6.5, False), "FF": (27, True), "HH": (13.5, False), "AF": (21.5, True)}


def fires(tier):
    kinds = [None] + [f"{k}{g}" for k in GYP for g in (0, 1)] + ["W20", "W45"]
    for mat in ("C24", "D30", "GL30c", "Kerto_S", "Kerto_T"):
        for kind, sides, when in itertools.product(kinds, (3, 4), ("created", "generic", "material")):
            yield {"mat": mat, "kind": kind, "sides": sides, "given": when}


def run_fire(case, ctx):
    TM, TS, TD = mods()
    FP = importlib.import_module("metku.eurocodes.en1995.fire_protection")
    kind, mat = case["kind"], case["mat"]
    fp = None
    bn = beta_n(mat)
    gap = 0
    if kind and kind[0] == "W":
        fp = FP.WoodenFireProtection(TD.T.C24, float(kind[1:]))
        tch = float(kind[1:]) / 0.65
        tf = tch
    elif kind:
        gap = int(kind[-1])
        fp = getattr(FP, "GypsumPlasterboard" + kind[:-1])(gap * 3)
        hp, typf = GYP[kind[:-1]]
        tch = float(math.floor(2.8 * hp - (23 if gap else 14) + 1e-9))
        tf = tch + 12.5 / 0.73 / bn if typf else tch
    four = case["sides"]
    mk = lambda m, g: TS.TimberSection(400.0, 600.0, TD.T[m], fire_protection_generic=g, fire_protection_sides=four, sides_on_fire=four)
    if case["given"] == "created":
        s = mk(mat, fp)
    elif case["given"] == "generic":
        s = mk(mat, None)
        s.fire_protection_generic = fp
    else:
        s = mk("GL24c" if mat != "GL30c" else "C40", fp)
        s.material = TD.T[mat]
    if fp:
        ta = min(2 * tf, 25 / 2 / bn + tf)
        ts = [t / 2 for t in range(0, 241)] + [tch, tf, ta]
    else:
        ts = [t / 2 for t in range(0, 241)]
    last = None
    for t in sorted(ts):
        s.R = t
        if not fp:
            dd = char(t, bn)
        else:
            k0 = min(1.0, t / 20.0) if tch <= 20 else min(1.0, t / tch)
            ch = 0.0
            if t > tch:
                ch += max(0.0, min(t, tf) - tch) * 0.73 * bn
                ch += max(0.0, min(t, ta) - tf) * 2 * bn
                ch += max(0.0, t - ta) * bn
            dd = ch + 7.0 * k0
        got = [float(s.B), float(s.H)]
        ctx.eq(got, [max(400 - 2 * dd, 1e-5), max(600 - dd * (2 if four == 4 else 1), 1e-5)], "charring", f"{case} t={t}: width and depth", 1e-9, 1e-9)
        ctx.expect(last is None or got[0] <= last[0] + 1e-9 and got[1] <= last[1] + 1e-9, "charring-grows", f"{case} t={t}: the section grows in fire, {last} -> {got}")
        last = got
        ctx.step()
    ctx.state(canon(last))


# --------------------------------------------------------- tapered, curved
def tapers(tier):
    for mat in ("GL30c", "C24", "Kerto_S"):
        for h0, hap in ((300.0, 700.0), (250.0, 300.0), (400.0, 1200.0)):
            for kind in ("single", "flipped", "double", "off-centre"):
                for ed in (None, "H0", "Hap", "B", "R"):
                    yield {"mat": mat, "h0": h0, "hap": hap, "kind": kind, "edit": ed}
        for h0, al, be, rin, t in itertools.product((600.0, 900.0), (10.0, 14.0), (5.0, 10.0), (9000.0, 15000.0), (33.0, 45.0)):
            for kind in ("curved", "cambered"):
                for ed in (None, "H0", "R_in", "B"):
                    yield {"mat": mat, "h0": h0, "alpha": al, "beta": be, "rin": rin, "t": t, "kind": kind, "edit": ed}


def taper_stability(case, ctx, m, s, B, grid, mom, sign, L):
    """buckling and lateral-torsional buckling of a member whose depth varies: the radius of gyration of a segment is that of its most bent section"""
    d, k = R.data(case["mat"]), R.kind(case["mat"])
    bc = 0.2 if k == "solid_timber" else 0.1
    keep = (m.lateral_support_y, m.lateral_support_z)
    H = [float(s.get_H(x)) for x in grid]
    for sy, sz in (([], []), ([0.5], [0.3]), ([0.25, 0.75], [0.25, 0.5])):
        m.lateral_support_y, m.lateral_support_z = list(sy), list(sz)
        m.calc_l_c()
        m.clear_sections()
        N = [-4e5 * (1.0 - 0.6 * x) for x in grid]
        for x, v, n in zip(grid, mom, N):
            m.add_section(n, v, 0.0, 0.0, 0.0, 0.0, loc=x)
        where = f"{case} moment {sign} at {len(grid)} sections, supports {sy} {sz}"
        fm, fc = float(m.fmd), float(m.fc0d)
        sc = [n / (B * h) for n, h in zip(N, H)]
        sm = [v / (B * h * h / 6) for v, h in zip(mom, H)]
        KC, UB = [], []
        for ax, supp in ((0, sy), (1, sz)):
            kcs, ub = [], []
            for lo, hi in segs(L, supp):
                ins = [j for j, x in enumerate(grid) if lo <= x <= hi]
                top = max(abs(sm[j]) for j in ins)
                crit = [j for j in ins if abs(sm[j]) >= top * (1 - 1e-9)]
                if len(crit) != 1:
                    ctx.undefined += 1
                    break
                i = (H[crit[0]], B)[ax] / math.sqrt(12.0)
                lr = (hi - lo) * L / i / math.pi * math.sqrt(d["fc0k"] / d["E005"])
                kk = 0.5 * (1 + bc * (lr - 0.3) + lr * lr)
                kc = 1.0 if lr <= 0.3 else 1 / (kk + math.sqrt(kk * kk - lr * lr))
                kcs.append(kc)
                ub.append(max(abs(sc[j]) for j in ins) / (kc * fc) + (1.0 if ax == 0 else KM) * top / fm)
            else:
                KC.append(kcs)
                UB.append(max(ub))
        if len(UB) < 2:
            continue
        g = m.k_c()
        ctx.eq([float(x) for x in g[0]] + [float(x) for x in g[1]], KC[0] + KC[1], "taper-buckling-factor", f"{where}: buckling factors", 1e-7, 1e-12)
        ctx.eq([float(x) for x in m.check_buckling()], UB, "taper-buckling", f"{where}: buckling", 1e-7, 1e-12)
        best = 0.0
        for q, (lo, hi) in enumerate(segs(L, sz)):
            for j, x in enumerate(grid):
                if lo <= x <= hi:
                    lef = 0.9 * (hi - lo) * L + 2 * H[j]
                    smc = math.pi * math.sqrt(d["E005"] * H[j] * B ** 3 / 12 * (d["G005"] if k != "lvl" else d["Gedge005"]) * float(m.I_tor(x))) / lef / (B * H[j] ** 2 / 6)
                    lm = math.sqrt(d["fmk"] / smc)
                    kcr = 1.0 if lm <= 0.75 else 1.56 - 0.75 * lm if lm <= 1.4 else 1 / lm ** 2
                    best = max(best, (sm[j] / (kcr * fm)) ** 2 + abs(sc[j]) / (KC[1][q] * fc))
        ctx.eq(float(m.check_LT_buckling()), best, "taper-ltb", f"{where}: lateral-torsional buckling", 1e-7, 1e-12)
        ctx.step(3)
    m.lateral_support_y, m.lateral_support_z = keep
    m.calc_l_c()


def run_taper(case, ctx):
    TM, TS, TD = mods()
    L, B = 16000.0, 190.0
    mat, kind = case["mat"], case["kind"]
    T = TD.T[mat]

    class P:
        length = L
    p = P()
    h0, fire = case["h0"], 0
    if kind in ("single", "flipped"):
        s = TS.PulpettiPalkki(B, h0, case["hap"], material=T, flipped=kind == "flipped")
    elif kind in ("double", "off-centre"):
        s = TS.HarjaPalkki(B, h0, case["hap"], xap=0.5 if kind == "double" else 0.3, material=T)
    else:
        cls = TS.KaarevaPalkki if kind == "curved" else TS.KaarevaHarjaPalkki
        s = cls(B, h0, case["alpha"], case["beta"] if kind == "cambered" or case["beta"] < case["alpha"] else case["alpha"], case["rin"], material=T, t=case["t"])
        s.parent = p
        s.update_circles()
    s.num_elements = 4
    s.create_elements()
    m = TM.TimberMember(s, s.material, L, "mt", 1, mtype="column", lateral_support_y=[], lateral_support_z=[], beta=1.0)
    s.timber_member = m
    hap = case.get("hap")
    ed = case["edit"]
    if ed == "H0":
        h0 = h0 - 40.0
        s.H0 = h0
    elif ed == "Hap":
        hap = hap + 90.0
        s.Hap = hap
    elif ed == "B":
        B = 240.0
        s.B = B
    elif ed == "R":
        fire = 30
        m.R = fire
    elif ed == "R_in":
        s.R_in = case["rin"] + 3000.0
    dd = char(fire, beta_n(mat)) if fire else 0.0
    b = B - 2 * dd
    xs = [i / 40 for i in range(41)]
    hs = [float(s.get_H(x)) for x in xs]
    if hap is not None:
        xap = {"single": 1.0, "flipped": 1.0, "double": 0.5, "off-centre": 0.3}[kind]
        want = [(h0 + (hap - h0) * (x / xap if x <= xap else (1 - x) / (1 - xap))) - dd for x in xs]
        ctx.eq(hs, want, "depth", f"{case}: depth along the beam", 1e-9, 1e-6)
    else:
        ctx.eq(hs, hs[::-1], "depth", f"{case}: depth of a symmetric beam", 1e-9, 1e-6)
        ctx.eq(hs[0], h0, "depth", f"{case}: depth at the support", 1e-9, 1e-6)
        fine = [float(s.get_H(i / 2000)) for i in range(2001)]
        jump = max(abs(u - v) for u, v in zip(fine, fine[1:]))
        ctx.expect(jump < 12.0, "depth", f"{case}: depth jumps by {jump:.3g} mm")
        area = L / 2000 * (sum(fine) - 0.5 * (fine[0] + fine[-1]))
        ctx.eq(float(s.A_face()), area, "face", f"{case}: area of the side face", 1e-4, 0)
        ctx.eq(float(s.hap), fine[1000], "depth", f"{case}: depth of the apex", 1e-9, 1e-6)
        hap, xap = float(s.hap), 0.5
    for x, h in zip(xs, hs):
        ctx.eq([float(s.get_A(x))] + [float(v) for v in s.get_I(x)] + [float(v) for v in s.get_Wel(x)], [b * h, b * h ** 3 / 12, h * b ** 3 / 12, b * h * h / 6, h * b * b / 6],
               "section", f"{case} x={x}: area, I, W", 1e-9, 1e-9)
    if ed != "B" and ed != "R":  # the elements follow a change of the shape
        ctx.eq([float(e.A) for e in s.small_elements] + [float(e.I[0]) for e in s.small_elements],
               [b * float(s.get_H(0.25 * i + 0.125)) for i in range(4)] + [b * float(s.get_H(0.25 * i + 0.125)) ** 3 / 12 for i in range(4)], "elements", f"{case}: sections of the elements", 1e-9, 1e-9)
    ctx.step(3)
    if fire:
        return
    # design rules of tapered and curved beams
    d, k = R.data(mat), R.kind(mat)
    f = R.kmod(1, "mt") / R.GAMMA[k]
    for sign, grid in itertools.product((1, -1), (LOCS, [0.0, 0.1, 0.3, 0.4, 0.6, 1.0])):
        m.clear_sections()
        M0 = sign * 8.0 * B * hap ** 2 / 6
        mom = [M0 * 4 * x * (1 - x) for x in grid]
        for x, v in zip(grid, mom):
            m.add_section(0.0, v, 0.0, 0.0, 0.0, 0.0, loc=x)
        where = f"{case} moment {sign} at {len(grid)} sections"
        fm = float(m.fmd)
        taper_stability(case, ctx, m, s, B, grid, mom, sign, L)
        m.clear_sections()
        for x, v in zip(grid, mom):
            m.add_section(0.0, v, 0.0, 0.0, 0.0, 0.0, loc=x)
        if kind in ("single", "flipped"):
            sg = max((v / (B * float(s.get_H(x)) ** 2 / 6) for v, x in zip(mom, grid)), key=abs)
            ta = (hap - h0) / L
            tens = (sign > 0) == (kind == "flipped")
            f90 = f * ((d["ft90k"] if k != "lvl" else d["ft90edgek"]) if tens else (d["fc90k"] if k != "lvl" else d["fc90edgek"]))
            kma = 1 / math.sqrt(1 + (fm / (0.75 if tens else 1.5) / (f * d["fvk"]) * ta) ** 2 + (fm / f90 * ta * ta) ** 2)
            ctx.eq([float(m.k_m_alpha()), float(m.check_single_tapered_beam_bending_tension())], [kma, abs(sg) / kma / fm], "tapered-edge", f"{where}: stress at the tapered edge", 1e-8, 1e-12)
            continue
        if kind == "off-centre":
            continue
        ta = (hap - h0) / (L / 2) if kind == "double" else math.tan(math.radians(case["alpha"]))
        x = hap / (float(s.r_in) + 0.5 * hap) if kind != "double" else 0.0
        if kind == "curved":
            kl, kp, kdis = 1 + 0.35 * x + 0.6 * x * x, 0.25 * x, 1.4
        else:
            kl = 1 + 1.4 * ta + 5.4 * ta ** 2 + (0.35 - 8 * ta) * x + (0.6 + 8.3 * ta - 7.8 * ta ** 2) * x ** 2 + 6 * ta ** 2 * x ** 3
            kp = 0.2 * ta + (0.25 - 1.5 * ta + 2.6 * ta ** 2) * x + (2.1 * ta - 4 * ta ** 2) * x ** 2
            kdis = 1.4 if kind == "double" else 1.7
        kr = 1.0 if kind == "double" else min(1.0, 0.76 + 0.001 * float(s.r_in) / case["t"])
        Mid = mom[grid.index(0.5)] if 0.5 in grid else 0.5 * (mom[grid.index(0.4)] + mom[grid.index(0.6)])
        Wap = B * hap ** 2 / 6
        vt = float(m.V_tot())
        face = L * 0.5 * (h0 + hap) if kind == "double" else float(s.A_face())
        ctx.eq(vt, face * B, "volume", f"{where}: volume of the beam", 1e-7, 0)
        v = float(m.V())
        ctx.expect(v > 0, "volume", f"{where}: volume of the apex zone {v}")
        kv = 1.0 if k == "solid_timber" else (1e7 / min(v, 2 / 3 * vt)) ** 0.2
        if k == "solid_timber" or v > 0:
            ctx.eq([float(m.k_l()), float(m.k_p()), float(m.k_r()), float(m.k_dis()), float(m.k_vol())], [kl, kp, kr, kdis, kv], "apex-factors", f"{where}: kl, kp, kr, kdis, kvol", 1e-8, 1e-12)
            ft90 = f * (d["ft90k"] if k != "lvl" else d["ft90edgek"])
            ctx.eq(float(m.check_apex_perpendicular_tension()), kp * Mid / Wap / (kdis * kv * ft90), "apex", f"{where}: tension perpendicular to the grain at the apex", 1e-8, 1e-12)
            ctx.eq(float(m.check_perpendicular_to_grain_tension()), kp * Mid / Wap / (kdis * kv * ft90), "apex", f"{where}: tension perpendicular to the grain", 1e-8, 1e-12)
        ctx.eq(float(m.check_apex_bending_stress()), kl * abs(Mid) / Wap / (kr * fm), "apex", f"{where}: bending at the apex", 1e-8, 1e-12)
        ctx.eq(float(m.check_tapered_beam_bending_tension()), kl * 0.5 * abs(Mid + Mid) / Wap / (kr * fm) if 0.5 in grid else
               kl * 0.5 * abs(mom[grid.index(0.4)] / (B * float(s.get_H(0.4)) ** 2 / 6) + mom[grid.index(0.6)] / (B * float(s.get_H(0.6)) ** 2 / 6)) / (kr * fm), "apex", f"{where}: bending of the tapered beam", 1e-8, 1e-12)
        ctx.step(5)
    ctx.state(canon([hap, B]))


def families(tier):
    return [
        Family("strengths", lambda: strengths(tier), run_strengths, "every strength class x orientation x service class x load duration x size, with every pattern of axial force and bending", "28 classes x 3 x 5 x 6 sizes x 18 patterns"),
        Family("members", lambda: members(tier), run_members, "every member: class x size x length x lateral supports x type x loaded edge, with every sign pattern of the forces", "4 (9) x 3 (7) x 2 x 7 (16) x 3, 42 force patterns"),
        Family("histories", lambda: hist_cases(tier), run_hist, "every history of edits of a member, judged after every edit", "2 members x 19 edits, depth 2 (3)"),
        Family("ends", lambda: ends(tier), run_ends, "every pair of end supports and bracing of a column, drawn from either end, and with the supports changed after the first evaluation", "25 x 9"),
        Family("fire", lambda: fires(tier), run_fire, "every class x protection x sides, at every half minute to 120 and at every event", "5 x 17 x 2 x 3 x 244"),
        Family("tapered", lambda: tapers(tier), run_taper, "every tapered and curved beam, with an edit, at 41 sections; apex and tapered-edge rules for both signs of the moment", "3 x (60 + 256)"),
    ]
