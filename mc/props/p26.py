"""P26: bolted end-plate and fin-plate joints (EN 1993-1-8 component method; ECCS fin plate rules)."""
import importlib
import itertools
import math
from ..core import Family, canon
from .p24 import DATA, CLASSES, hole, ref_bearing, ref_shear, omega, section

G0, G1, G2, E = 1.0, 1.0, 1.25, 210e3
FY = {"S235": (235, 360), "S275": (275, 430), "S355": (355, 510), "S420": (420, 500)}
OUT, FIRST, INNER, END = "outside", "first", "inner", "end"


def dims(kind, h, fy):
    s = section(kind, h, fy)
    return {"h": s.h, "b": s.b, "tf": s.tf, "tw": s.tw, "r": s.r, "fy": float(fy), "fu": float(FY[f"S{fy}"][1])}


def area(s):
    return 2 * s["b"] * s["tf"] + (s["h"] - 2 * s["tf"]) * s["tw"] + (4 - math.pi) * s["r"] ** 2


def avc(s):
    return max(area(s) - 2 * s["b"] * s["tf"] + (s["tw"] + 2 * s["r"]) * s["tf"], (s["h"] - 2 * s["tf"]) * s["tw"])


def wpl(s):
    h, b, tf, tw, r = s["h"], s["b"], s["tf"], s["tw"], s["r"]
    hw = h - 2 * tf
    w = b * tf * (h - tf) + tw * hw ** 2 / 4
    # four fillets, each r*r minus a quarter circle
    a = (1 - math.pi / 4) * r * r
    c = (r * r * r / 2 - math.pi / 4 * r * r * (r - 4 * r / (3 * math.pi))) / a if r else 0.0
    return w + 4 * a * (hw / 2 - c)


def chart(l1, l2):
    """alpha of the chart of stiffened flanges; None outside it"""
    def f(a):
        lim = 1.25 / (a - 2.75)
        x = (0.5 * a * lim - l2) / (0.5 * a * lim)
        return None if x < 0 else lim + (1 - lim) * x ** (0.185 * a ** 1.785) - l1
    lo, hi = 4.45, 8.0
    flo, fhi = f(lo), f(hi)
    if flo is None or fhi is None or flo * fhi > 0:
        return None
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        v = f(mid)
        if v is None:
            return None
        if v * flo > 0:
            lo, flo = mid, v
        else:
            hi = mid
    return 0.5 * (lo + hi)


def alpha_formula(e, m, m2):
    return min(max(4 + 1.67 * e / m * (m / m2) ** 0.67, 4 + 1.25 * e / m), 8.0)


class Undefined(Exception):
    pass


class Oracle:
    """component method for the state S (a dict of plain data)"""

    def __init__(self, S):
        self.S = S
        c, b = S["col"], S["beam"]
        self.w = S["bp"] - 2 * S["eb"]
        self.Ft = 0.9 * CLASSES[S["cls"]][1] * DATA[S["d"]][0] / G2
        self.Av = avc(c)
        self.dc = c["h"] - 2 * c["tf"] - 2 * c["r"]
        self.zc = -0.5 * (b["h"] - b["tf"])
        self.h = [z - self.zc for z in S["z"]]
        self.fyp = float(FY[S["mat"]][0])
        # column flange
        self.mc = 0.5 * (self.w - c["tw"]) - 0.8 * c["r"]
        self.ec = 0.5 * (c["b"] - self.w)
        self.emin = min(self.ec, S["eb"])
        self.mp = 0.5 * (self.w - b["tw"]) - 0.8 * math.sqrt(2) * S["aw"]
        if min(self.mc, self.ec, self.mp, S["eb"]) < 5:
            raise Undefined
        if any(a - b_ < 2.2 * hole(S["d"]) for a, b_ in zip(S["z"], S["z"][1:])):
            raise Undefined  # rows too close to each other, or not from top to bottom
        for z, (cf, ep) in zip(S["z"], S["pos"]):
            if ep == OUT and min(self.mx(z), self.ex(z)) < 5:
                raise Undefined
            if ep == FIRST and self.m2(z) < 5:
                raise Undefined
            if ep != OUT and z > 0.5 * b["h"] - b["tf"]:
                raise Undefined
            if S["top"] and cf == "adjacent" and self.ms(z) < 5:
                raise Undefined

    def ex(self, z):
        return 0.5 * self.S["beam"]["h"] + self.S["etop"] - z

    def mx(self, z):
        return z - 0.5 * self.S["beam"]["h"] - 0.8 * math.sqrt(2) * self.S["af"]

    def m2(self, z):
        b = self.S["beam"]
        return 0.5 * b["h"] - b["tf"] - 0.8 * math.sqrt(2) * self.S["af"] - z

    def ms(self, z):
        """distance of a bolt row to the weld of the top stiffener of the column"""
        b = self.S["beam"]
        zs = 0.5 * b["h"] - 0.5 * b["tf"]
        half = 0.5 * self.S["top"] + 0.8 * math.sqrt(2) * self.S["topweld"]
        return abs(z - zs) - half

    def alpha_c(self, z):
        m, e, m2 = self.mc, self.ec, self.ms(z)
        a = chart(m / (m + e), m2 / (m + e))
        return a if a is not None else alpha_formula(e, m, m2)

    # effective lengths: (cp, nc)
    def leff_c(self, z, cf):
        m, e = self.mc, self.ec
        return 2 * math.pi * m, (self.alpha_c(z) * m if cf == "adjacent" else 4 * m + 1.25 * e)

    def leff_p(self, z, ep):
        m, e = self.mp, self.S["eb"]
        if ep == OUT:
            mx, ex = self.mx(z), self.ex(z)
            return min(2 * math.pi * mx, math.pi * mx + self.w, math.pi * mx + 2 * e), min(4 * mx + 1.25 * ex, e + 2 * mx + 0.625 * ex, 0.5 * self.S["bp"], 0.5 * self.w + 2 * mx + 0.625 * ex)
        return 2 * math.pi * m, (alpha_formula(e, m, self.m2(z)) * m if ep == FIRST else 4 * m + 1.25 * e)

    def group_c(self, rows, poss):
        """list of (cp, nc) of the rows of a group"""
        m, e, z = self.mc, self.ec, self.S["z"]
        out = []
        for i, (r, cf) in enumerate(zip(rows, poss)):
            above = z[rows[i - 1]] - z[r] if i else None
            below = z[r] - z[rows[i + 1]] if i + 1 < len(rows) else None
            if cf == "inner":
                p = 0.5 * (above + below)
                out.append((2 * p, p))
            else:
                p = below if i == 0 else above
                if cf == "adjacent":
                    out.append((math.pi * m + p, 0.5 * p + self.alpha_c(z[r]) * m - (2 * m + 0.625 * e)))
                else:
                    out.append((math.pi * m + p, 2 * m + 0.625 * e + 0.5 * p))
        return out

    def group_p(self, rows, poss):
        m, e, z = self.mp, self.S["eb"], self.S["z"]
        out = []
        for i, (r, ep) in enumerate(zip(rows, poss)):
            above = z[rows[i - 1]] - z[r] if i else None
            below = z[r] - z[rows[i + 1]] if i + 1 < len(rows) else None
            if ep == OUT:
                out.append(None)
            elif ep == FIRST:
                out.append((math.pi * m + below, 0.5 * below + alpha_formula(e, m, self.m2(z[r])) * m - (2 * m + 0.625 * e)))
            elif ep == INNER:
                p = 0.5 * (above + below)
                out.append((2 * p, p))
            else:
                p = below if i == 0 else above
                out.append((math.pi * m + p, 2 * m + 0.625 * e + 0.5 * p))
        return out

    @staticmethod
    def tstub(cp, nc, t, fy, m, n, Ft):
        l1, l2 = min(cp, nc), nc
        F = [l1 * t * t * fy / G0 / m, (0.5 * l2 * t * t * fy / G0 + n * Ft) / (m + n), Ft]
        k = F.index(min(F))
        return F[k], l1 if k == 0 else l2, F

    def row(self, i):
        S = self.S
        z, (cf, ep) = S["z"][i], S["pos"][i]
        c, b = S["col"], S["beam"]
        Fc, lc, _ = self.tstub(*self.leff_c(z, cf), c["tf"], c["fy"], self.mc, min(self.emin, 1.25 * self.mc), 2 * self.Ft)
        if ep == OUT:
            mx = self.mx(z)
            Fp, lp, _ = self.tstub(*self.leff_p(z, ep), S["tp"], self.fyp, mx, min(self.ex(z), 1.25 * mx), 2 * self.Ft)
            Fb = math.inf
        else:
            Fp, lp, _ = self.tstub(*self.leff_p(z, ep), S["tp"], self.fyp, self.mp, min(self.emin, 1.25 * self.mp), 2 * self.Ft)
            Fb = lp * b["tw"] * b["fy"] / G0
        Fw = omega(S["beta"], lc, c["tw"], self.Av) * lc * c["tw"] * c["fy"] / G0
        return min(Fc, Fp, Fw, Fb)

    def group(self, g):
        S = self.S
        rows, poss = g
        c, b = S["col"], S["beam"]
        n = len(rows)
        F = []
        if not self.split(g):
            L = self.group_c(rows, [p[0] for p in poss])
            Fc, lc, _ = self.tstub(sum(x[0] for x in L), sum(x[1] for x in L), c["tf"], c["fy"], self.mc, min(self.emin, 1.25 * self.mc), 2 * n * self.Ft)
            F += [Fc, omega(S["beta"], lc, c["tw"], self.Av) * lc * c["tw"] * c["fy"] / G0]
        if poss[0][1] != OUT:
            L = self.group_p(rows, [p[1] for p in poss])
            Fp, lp, _ = self.tstub(sum(x[0] for x in L), sum(x[1] for x in L), S["tp"], self.fyp, self.mp, min(self.emin, 1.25 * self.mp), 2 * n * self.Ft)
            F += [Fp, lp * b["tw"] * b["fy"] / G0]
        return min(F, default=math.inf)

    @staticmethod
    def split(g):
        return g[1][0][0] == "adjacent" and g[1][0][1] == OUT

    def compression(self):
        S = self.S
        c, b = S["col"], S["beam"]
        V = 0.9 * c["fy"] * self.Av / math.sqrt(3) / G0
        if S["top"] and S["bottom"]:
            ds = b["h"] - b["tf"]
            Mf = 0.25 * c["b"] * c["tf"] ** 2 * c["fy"] / G0
            Ms = [0.25 * c["b"] * t * t * c["fy"] / G0 for t in (S["top"], S["bottom"])]
            V += min(4 * Mf, 2 * Mf + sum(Ms)) / ds
        beff = b["tf"] + 2 * math.sqrt(2) * S["af"] + 5 * (c["tf"] + c["r"]) + min(2 * S["tp"], S["tp"] + S["ebot"] - math.sqrt(2) * S["af"])
        if S["bottom"]:
            eps, bs, ts, tw = math.sqrt(235 / c["fy"]), 0.5 * (c["b"] - c["tw"]), S["bottom"], c["tw"]
            A = (30 * eps * tw + ts) * tw + 2 * bs * ts
            I = (2 * bs + tw) ** 3 * ts / 12
            lam = (c["h"] - 2 * c["tf"]) / math.sqrt(I / A) / (93.9 * eps)
            phi = 0.5 * (1 + 0.49 * (lam - 0.2) + lam * lam)
            chi = 1.0 if lam <= 0.2 else min(1.0, 1 / (phi + math.sqrt(phi * phi - lam * lam)))
            Fc = chi * A * c["fy"] / (G1 if lam > 0.2 else G0)
        else:
            lam = 0.932 * math.sqrt(beff * self.dc * c["fy"] / (E * c["tw"] ** 2))
            rho = 1.0 if lam <= 0.72 else (lam - 0.2) / lam ** 2
            s = S["N"] / area(c)
            k = 1.0 if s <= 0.7 * c["fy"] else 1.7 - s / c["fy"]
            Fc = omega(S["beta"], beff, c["tw"], self.Av) * k * beff * c["tw"] * c["fy"] * min(1 / G0, rho / G1)
        Fb = wpl(b) * b["fy"] / G0 / (b["h"] - b["tf"])
        return {"V": V, "Fc": Fc, "Fb": Fb, "all": min(V / S["beta"], Fc, Fb), "beff": beff}

    def forces(self):
        S = self.S
        F = {i: self.row(i) for i in range(len(S["z"])) if S["type"][i] != "shear"}
        for g in S["groups"]:
            tot, lim = 0.0, self.group(g)
            for r in g[0]:
                F[r] = min(F[r], lim - tot)
                tot += F[r]
        tot, cap = 0.0, self.compression()["all"]
        for r in sorted(F):
            F[r] = min(F[r], cap - tot)
            tot += F[r]
        return F

    def moment(self):
        return sum(f * self.h[r] for r, f in self.forces().items())

    def stiffness(self):
        S = self.S
        c = S["col"]
        d = DATA[S["d"]]
        rows = [i for i, t in enumerate(S["type"]) if t != "shear"]
        ke = {}
        for i in rows:
            z, (cf, ep) = S["z"][i], S["pos"][i]
            lc, lp = min(self.leff_c(z, cf)), min(self.leff_p(z, ep))
            for g in S["groups"]:
                if i not in g[0]:
                    continue
                j = g[0].index(i)
                if not self.split(g):
                    lc = min(lc, *self.group_c(g[0], [p[0] for p in g[1]])[j])
                if ep != OUT and not (len(g[0]) == 2 and g[1][0][1] == OUT):
                    lp = min(lp, *self.group_p(g[0], [p[1] for p in g[1]])[j])
            m = self.mx(z) if ep == OUT else self.mp
            Lb = S["tp"] + c["tf"] + 2 * d[5] + 0.5 * (d[1] + d[3])
            k = [0.7 * lc * c["tw"] / self.dc, 0.9 * lc * c["tf"] ** 3 / self.mc ** 3, 0.9 * lp * S["tp"] ** 3 / m ** 3, 1.6 * d[0] / Lb]
            ke[i] = 1 / sum(1 / x for x in k)
        z = sum(ke[i] * self.h[i] ** 2 for i in rows) / sum(ke[i] * self.h[i] for i in rows)
        keq = sum(ke[i] * self.h[i] for i in rows) / z
        inv = 1 / keq + 1 / (0.38 * self.Av / (S["beta"] * z))
        if not S["bottom"]:
            inv += 1 / (0.7 * self.compression()["beff"] * c["tw"] / self.dc)
        return E * z * z / inv, z, keq

    def shear(self):
        S = self.S
        F = self.forces()
        c = S["col"]
        fub = CLASSES[S["cls"]][1]
        V = 0.0
        for i, z in enumerate(S["z"]):
            load = "inner" if i else "edge"
            p1 = S["z"][i - 1] - z if i else 0.0
            Fp = ref_bearing(S["d"], fub, float(FY[S["mat"]][1]), S["tp"], (self.ex(z), S["eb"]), (p1, self.w), "edge", load)
            Fc = ref_bearing(S["d"], fub, c["fu"], c["tf"], (1e5, self.ec), (p1, self.w), "edge", load)
            Fv = ref_shear(S["cls"], DATA[S["d"]][0], True)
            if i in F and F[i] > 1e-3:
                Fv *= 0.286
            V += 2 * min(Fp, Fc, Fv)
        return V


# ---------------------------------------------------------------- states and the real joint
def base_state(cfg):
    col, beam, mat, rows, ext = cfg["col"], cfg["beam"], cfg["mat"], cfg["rows"], cfg["extended"]
    S = {"colp": list(col), "beamp": list(beam), "col": dims(*col), "beam": dims(*beam), "mat": mat, "cls": cfg["cls"], "d": cfg["d"], "af": 6.0, "aw": 4.0, "beta": 1.0,
         "N": 0.0, "top": 0.0, "bottom": 0.0, "topweld": 0.0, "ebot": 20.0, "tp": cfg["tp"], "groups": []}
    S["bp"] = S["col"]["b"] + cfg["wider"]
    S["eb"] = round(0.5 * S["bp"] - cfg["gauge"] * S["col"]["b"], 3)
    S["etop"] = 80.0 if ext else 20.0
    b = S["beam"]
    d = cfg["d"]
    if ext:
        z0 = 0.5 * b["h"] + 40.0
        z1 = 0.5 * b["h"] - b["tf"] - 45.0
        zs = [z0, z1, z1 - 4.0 * d, -0.5 * b["h"] + b["tf"] + 45.0][:rows]
        pos = [("end", OUT), ("inner", FIRST), ("inner", END), ("end", END)][:rows]
        if rows == 2:
            pos[1] = ("end", FIRST)
        groups = {1: [], 2: [[0, 1]], 3: [[0, 1], [0, 1, 2], [1, 2]], 4: [[0, 1], [0, 1, 2], [1, 2]]}[rows]
    else:
        z0 = 0.5 * b["h"] - b["tf"] - 45.0
        zs = [z0, z0 - 4.0 * d, z0 - 8.0 * d, -0.5 * b["h"] + b["tf"] + 45.0]
        zs = zs[:rows] if rows < 4 else zs
        pos = [("end", FIRST), ("inner", INNER), ("inner", END), ("end", END)][:rows]
        if rows == 2:
            pos[1] = ("end", END)
        groups = {1: [], 2: [[0, 1]], 3: [[0, 1], [0, 1, 2], [1, 2]], 4: [[0, 1], [0, 1, 2], [1, 2]]}[rows]
    S["z"], S["pos"] = zs, pos
    S["type"] = ["tension"] * min(rows, 3) + ["shear"] * (rows > 3)
    for g in groups:
        n = len(g)
        ps = []
        for k, r in enumerate(g):
            cf = "inner" if 0 < k < n - 1 else "end"
            ep = pos[r][1]
            if ep == INNER and k in (0, n - 1):
                ep = END
            ps.append((cf, ep))
        S["groups"].append((list(g), ps))
    return S


def build(S):
    EP = importlib.import_module("metku.structures.steel.end_plate_joint")
    J = importlib.import_module("metku.eurocodes.en1993.en1993_1_8.en1993_1_8")
    cf = {"end": J.END_ROW, "inner": J.INNER_ROW, "adjacent": J.ADJACENT_TO_STIFFENER_ROW}
    ep = {OUT: J.ROW_OUTSIDE_BEAM_TENSION_FLANGE, FIRST: J.FIRST_ROW_BELOW_BEAM_TENSION_FLANGE, INNER: J.OTHER_INNER_ROW, END: J.OTHER_END_ROW}
    ty = {"tension": J.TENSION_ROW, "shear": J.SHEAR_ROW}
    lab = lambda p: {"flange": cf[p[0]], "plate": ep[p[1]]}
    j = EP.EndPlateJoint(section(*S["colp"]), section(*S["beamp"]), tp=S["tp"], bp=S["bp"], mat_p=S["mat"], etop=S["etop"], ebottom=S["ebot"], bolt=J.Bolt(S["d"], S["cls"], 60.0),
                         y_bolts=list(S["z"]), e_bolts=S["eb"], bolt_row_pos=[lab(p) for p in S["pos"]], groups=[list(g) for g, _ in S["groups"]],
                         group_pos=[[lab(p) for p in ps] for _, ps in S["groups"]], row_types=[ty[t] for t in S["type"]])
    j.weld_f, j.weld_w, j.beta = S["af"], S["aw"], S["beta"]
    j.col.Ned = -S["N"]
    return j


EDITS = {
    "tp": [8.0, 25.0], "bp": [0.8, 1.15], "eb": [-6.0, 9.0], "xb": [-5.0, 8.0], "etop": [10.0], "ebot": [5.0, 60.0], "d": [16, 24], "z_top": [-6.0, 8.0], "type": ["shear"], "beta": [0.5, 1.6],
    "af": [4.0, 9.0], "aw": [3.0, 7.0], "col": [("HEA", 240, 355), ("HEB", 220, 235)], "beam": [("IPE", 300, 235), ("IPE", 360, 355)], "mat": ["S235", "S420"], "N": [0.5, 0.9],
    "bottom": [12.0], "top": [15.0],
}


def apply(S, j, ed, v):
    """apply one edit to the model state and to the joint"""
    import copy
    S = copy.deepcopy(S)
    if ed == "tp":
        S["tp"] = j.tp = v
    elif ed == "bp":
        S["bp"] = j.bp = round(S["bp"] * v, 3)
    elif ed == "eb":
        S["eb"] = j.ebolts = S["eb"] + v
    elif ed == "xb":
        x = 0.5 * S["bp"] - S["eb"] + v
        j.xbolts = x
        S["eb"] = 0.5 * S["bp"] - x
    elif ed == "etop":
        S["etop"] = j.etop = S["etop"] + v
    elif ed == "ebot":
        S["ebot"] = j.ebottom = v
    elif ed == "d":
        S["d"] = j.bolt_size = v
    elif ed == "z_top":
        r = min(1, len(S["z"]) - 1)
        zt = 0.5 * S["beam"]["h"] + S["etop"] - S["z"][r] + v
        j.bolt_rows[r].z_top = zt
        S["z"][r] = 0.5 * S["beam"]["h"] + S["etop"] - zt
    elif ed == "type":
        J = importlib.import_module("metku.eurocodes.en1993.en1993_1_8.en1993_1_8")
        r = max(i for i, t in enumerate(S["type"]) if t != "shear")
        if r == 0 or any(r in g for g, _ in S["groups"]):
            raise Undefined
        S["type"][r] = "shear"
        j.bolt_rows[r].type = J.SHEAR_ROW
    elif ed == "beta":
        S["beta"] = j.beta = v
    elif ed == "af":
        S["af"] = j.weld_f = v
    elif ed == "aw":
        S["aw"] = j.weld_w = v
    elif ed == "col":
        if S["top"] or S["bottom"]:
            raise Undefined
        S["col"], S["colp"] = dims(*v), list(v)
        N = S["N"]
        j.col = section(*v)
        j.col.Ned = -N
    elif ed == "beam":
        if S["top"] or S["bottom"]:
            raise Undefined
        S["beam"], S["beamp"] = dims(*v), list(v)
        j.beam = section(*v)
    elif ed == "mat":
        from metku.materials.steel_data import Steel
        S["mat"] = v
        j.end_plate.material = Steel(v)
    elif ed == "N":
        S["N"] = v * S["col"]["fy"] * area(S["col"])
        j.col.Ned = -S["N"]
    elif ed in ("bottom", "top"):
        if S[ed]:
            raise Undefined
        j.add_stiffener(f"col_{ed}_flange", t=v)
        S[ed] = v
        if ed == "top":
            beta = {"S235": .8, "S275": .85, "S355": .9, "S420": 1.0}
            g = f"S{int(S['col']['fy'])}"
            S["topweld"] = math.ceil(beta[g] / math.sqrt(2) * G2 / G0 * S["col"]["fy"] / S["col"]["fu"] * v)
            adj = [0, 1] if S["z"][0] > 0.5 * S["beam"]["h"] else [0]
            if len(S["z"]) <= max(adj):
                raise Undefined
            for r in adj:
                S["pos"][r] = ("adjacent", S["pos"][r][1])
            for g_, ps in S["groups"]:
                for k, r in enumerate(g_):
                    if r in adj:
                        ps[k] = ("adjacent", ps[k][1])
    return S


def judge(S, j, ctx, where, order):
    o = Oracle(S)
    comp = o.compression()
    F = o.forces()
    Sj, z, keq = o.stiffness()
    M, V = o.moment(), o.shear()
    asks = {
        "moment": lambda: ctx.eq(float(j.MjRd), M, "moment", f"{where}: moment resistance", 1e-7, 1e-3),
        "shear": lambda: ctx.eq(float(j.VjRd), V, "shear", f"{where}: shear resistance", 1e-7, 1e-3),
        "stiffness": lambda: ctx.eq([float(j.Sj_ini()), float(j.zeq()), float(j.keq())], [Sj, z, keq], "stiffness", f"{where}: initial stiffness, lever arm and equivalent stiffness", 1e-6, 1e-6),
        "groups": lambda: groups(),
        "components": lambda: (ctx.eq([float(j.V_wp_Rd()), float(j.Fc_wc_Rd()), float(j.Fc_fb_Rd())], [comp["V"], comp["Fc"], comp["Fb"]], "components", f"{where}: web panel, column web and beam flange in compression", 1e-6, 1e-3),
                               ctx.eq([float(r.tension_resistance()) for i, r in enumerate(j.bolt_rows) if i in F], [o.row(i) for i in sorted(F)], "rows", f"{where}: bolt rows alone", 1e-7, 1e-3)),
    }

    def groups():
        for g, G in zip(S["groups"], j.row_groups):
            ctx.eq(float(G.tension_resistance()), o.group(g), "groups", f"{where}: bolt row group {g[0]}", 1e-7, 1e-3)
            if not o.split(g):
                L = o.group_c(g[0], [p[0] for p in g[1]])
                want = Oracle.tstub(sum(x[0] for x in L), sum(x[1] for x in L), S["col"]["tf"], S["col"]["fy"], o.mc, min(o.emin, 1.25 * o.mc), 2 * len(g[0]) * o.Ft)
                ctx.eq([float(G.Tstub_col_flange.leff_1), float(G.Tstub_col_flange.leff_2), float(G.Tstub_col_flange.leff())],
                       [min(sum(x[0] for x in L), sum(x[1] for x in L)), sum(x[1] for x in L), want[1]], "groups", f"{where}: effective lengths of group {g[0]}, column flange", 1e-7, 1e-6)
            if g[1][0][1] != OUT:
                L = o.group_p(g[0], [p[1] for p in g[1]])
                ctx.eq([float(G.Tstub_end_plate.leff_1), float(G.Tstub_end_plate.leff_2)], [min(sum(x[0] for x in L), sum(x[1] for x in L)), sum(x[1] for x in L)], "groups",
                       f"{where}: effective lengths of group {g[0]}, end plate", 1e-7, 1e-6)
    for k in order:
        ctx.step()
        asks[k]()
    j.MjEd = 0.9e-6 * M
    ctx.eq(float(j.rotational_stiffness()), Sj / 1.35 ** 2.7, "rotation", f"{where}: stiffness at 0.9 MjRd", 1e-6, 1e-3)
    j.MjEd = 0.0
    ctx.eq([j.p, j.xbolts, j.bolt_size, j.end_plate.h if S.get("hp", True) else 0.0] + [r.z_top for r in j.bolt_rows], [o.w, 0.5 * o.w, S["d"], (S["etop"] + S["ebot"] + S["beam"]["h"]) if S.get("hp", True) else 0.0] + [o.ex(z) for z in S["z"]],
           "geometry", f"{where}: bolt gauge, positions and plate height", 1e-9, 1e-6)
    ctx.state(canon([round(M, -2), round(Sj, -4)]))


ASKS = ("moment", "shear", "stiffness", "components", "groups")
CFG = dict(col=("HEB", 200, 235), beam=("IPE", 330, 275), mat="S355", cls=8.8, d=20, tp=14.0, wider=-10.0, gauge=0.27)


def configs(tier):
    for rows, ext in itertools.product((1, 2, 3, 4), (True, False)):
        for wider in (-20.0, 0.0, 30.0):
            for col in (("HEB", 200, 235), ("HEA", 260, 355), ("HEB", 300, 275)) if tier == "quick" else (("HEB", 160, 235), ("HEB", 200, 235), ("HEA", 260, 355), ("HEB", 300, 275), ("HEA", 400, 420)):
                for beam in (("IPE", 240, 275), ("IPE", 400, 355)) if tier == "quick" else (("IPE", 240, 275), ("IPE", 330, 235), ("IPE", 400, 355), ("IPE", 500, 420)):
                    for cls, d in ((8.8, 16), (10.9, 24), (5.6, 20)):
                        for tp in (8.0, 15.0, 30.0):
                            for gauge in (0.22, 0.28):
                                yield dict(rows=rows, extended=ext, wider=wider, col=list(col), beam=list(beam), cls=cls, d=d, tp=tp, gauge=gauge, mat="S275" if d == 16 else "S355")


def run_config(case, ctx):
    try:
        S = base_state(case)
        Oracle(S)
    except Undefined:
        ctx.undefined += 1
        return
    rot = (case["rows"] + int(case["tp"])) % 5
    judge(S, build(S), ctx, f"{case}", ASKS[rot:] + ASKS[:rot])


def hists(tier):
    edits = [(k, v) for k, vs in EDITS.items() for v in vs]
    for rows, ext in ((4, True), (3, False), (2, True), (1, False)):
        first = edits
        for n in range(1, 3):
            for seq in itertools.product(edits, repeat=n):
                if len(set(k for k, _ in seq)) < n and n > 1 and seq[0] == seq[1]:
                    continue
                if n == 2 and rows < 3 and tier == "quick":
                    continue
                yield {"rows": rows, "extended": ext, "edits": [[k, canon(v) if not isinstance(v, tuple) else list(v)] for k, v in seq]}
    if tier != "quick":
        sub = [(k, vs[-1]) for k, vs in EDITS.items()]
        for rows, ext in ((4, True), (3, False)):
            for seq in itertools.permutations(sub, 3):
                yield {"rows": rows, "extended": ext, "edits": [[k, v if not isinstance(v, tuple) else list(v)] for k, v in seq]}


def run_hist(case, ctx):
    cfg = dict(CFG, rows=case["rows"], extended=case["extended"])
    if case["rows"] == 2:
        cfg["wider"] = 20.0
    S = base_state(cfg)
    j = build(S)
    order = ASKS if len(case["edits"]) % 2 else ASKS[::-1]
    judge(S, j, ctx, f"{case} created", order)
    for k, (ed, v) in enumerate(case["edits"]):
        v = tuple(v) if isinstance(v, list) else v
        try:
            S2 = apply(S, j, ed, v)
            Oracle(S2)
        except Undefined:
            ctx.undefined += 1
            return
        S = S2
        if ed == "beam":
            S["hp"] = False  # the plate is not resized with the beam
        elif ed in ("etop", "ebot"):
            S.pop("hp", None)
        judge(S, j, ctx, f"{case} after edit {k + 1}", order)
        judge(S, build_like(S), ctx, f"{case} new joint {k + 1}", order[:1])


def build_like(S):
    """a new joint with the data of S"""
    import copy
    T = copy.deepcopy(S)
    top, bottom = T["top"], T["bottom"]
    if top:
        T["pos"] = [("end" if p[0] == "adjacent" else p[0], p[1]) for p in T["pos"]]
        T["groups"] = [(g, [("end" if p[0] == "adjacent" else p[0], p[1]) for p in ps]) for g, ps in T["groups"]]
    j = build(T)
    if bottom:
        j.add_stiffener("col_bottom_flange", t=bottom)
    if top:
        j.add_stiffener("col_top_flange", t=top)
    return j


# ---------------------------------------------------------------- fin plates
FIN = {"tp": [8.0, 12.0], "hp": [210.0, 260.0], "p1": [60.0, 75.0], "bp": [105.0, 150.0], "d": [16, 24], "gh": [15.0], "pos": [20.0, -15.0], "beam": [("IPE", 360, 355)], "p2": [55.0, 65.0]}


def fin_cases(tier):
    for beam in (("IPE", 300, 235), ("IPE", 450, 355)):
        for n1, n2 in itertools.product((2, 3, 4), (1, 2)):
            for d, cls in ((16, 8.8), (20, 10.9), (24, 4.6)):
                eds = [(k, v) for k, vs in FIN.items() for v in vs]
                for n in range(0, 3):
                    for seq in itertools.product(eds, repeat=n):
                        if n == 2 and (tier == "quick" and (d != 20 or beam[1] != 300) or seq[0][0] == seq[1][0]):
                            continue
                        yield {"beam": list(beam), "n1": n1, "n2": n2, "d": d, "cls": cls, "edits": [[k, v if not isinstance(v, tuple) else list(v)] for k, v in seq]}


def fin_judge(S, j, ctx, where):
    b, d = S["beam"], S["d"]
    d0, n1, n2 = hole(d), S["n1"], S["n2"]
    n = n1 * n2
    fub = CLASSES[S["cls"]][1]
    fyp, fup = FY["S275"]
    hp, tp, p1, p2 = S["hp"], S["tp"], S["p1"], S["p2"] if n2 > 1 else 0.0
    e1 = 0.5 * hp - 0.5 * (n1 - 1) * p1
    e2 = S["bp"] - S["x0"] - p2
    e1b = 0.5 * b["h"] - S["pos"] - 0.5 * (n1 - 1) * p1
    e2b = S["x0"] - S["gh"]
    z = S["x0"] + 0.5 * p2
    if min(e1, e2, e2b, e1b - b["tf"]) < 1.2 * d0 or p1 < 2.2 * d0 or (n2 > 1 and p2 < 2.4 * d0):
        ctx.undefined += 1
        return
    # bolt forces by statics: vertical V/n and from the moment V*z about the centroid of the group
    pts = [((i - 0.5 * (n2 - 1)) * p2, (k - 0.5 * (n1 - 1)) * p1) for i in range(n2) for k in range(n1)]
    I = sum(x * x + y * y for x, y in pts)
    worst = max(math.hypot(1 / n + z * abs(x) / I, z * abs(y) / I) for x, y in pts)
    Fv = ref_shear(S["cls"], DATA[d][0], True)
    ctx.eq(float(j.bolt_shear()), Fv / worst, "bolts", f"{where}: bolts in shear", 1e-9, 1e-3)
    a, be = z * max(x for x, _ in pts) / I, z * max(y for _, y in pts) / I
    P2 = p2 if n2 > 1 else 1e5

    def bearing(fu, t, ev, eh):
        Fver = ref_bearing(d, fub, fu, t, (ev, eh), (p1, P2), "edge", "edge")
        Fhor = ref_bearing(d, fub, fu, t, (eh, ev), (P2, p1), "edge", "edge")
        return 1 / math.hypot((1 / n + a) / Fver, be / Fhor)
    ctx.eq(float(j.fin_plate_bearing()), bearing(float(fup), tp, e1, e2), "plate-bearing", f"{where}: plate in bearing", 1e-9, 1e-3)
    ctx.eq(float(j.beam_web_bearing()), bearing(b["fu"], b["tw"], e1b, e2b), "web-bearing", f"{where}: beam web in bearing", 1e-9, 1e-3)
    r3 = math.sqrt(3)
    W = tp * hp * hp / 6
    C = 1.0
    if z >= tp / 0.15:
        lam = 2.8 / (math.pi * math.sqrt(E / fyp)) * math.sqrt(z * hp / 1.5) / tp
        phi = 0.5 * (1 + 0.76 * (lam - 0.2) + lam * lam)
        C = min((1.0 if lam <= 0.2 else min(1.0, 1 / (phi + math.sqrt(phi * phi - lam * lam)))) / 0.6, 1.0)
    ctx.eq([float(x) for x in (j.fin_plate_shear_gross(), j.fin_plate_shear_net(), j.fin_plate_block_tearing(), j.fin_plate_bending(), j.fin_plate_ltb())],
           [hp * tp * fyp / 1.27 / r3, tp * (hp - n1 * d0) * fup / r3 / G2, 0.5 * fup * tp * (e2 + p2 - (n2 - 0.5) * d0) / G2 + fyp * tp * (hp - e1 - (n1 - 0.5) * d0) / r3, fyp * W / z, C * fyp * W / z],
           "plate", f"{where}: plate shear, net shear, block tearing, bending and buckling", 1e-9, 1e-3)
    Av = avc(b)
    ctx.eq([float(x) for x in (j.beam_web_shear_gross(), j.beam_web_shear_net(), j.beam_web_block_tearing())],
           [Av * b["fy"] / r3, (Av - n1 * d0 * b["tw"]) * b["fu"] / r3 / G2, 0.5 * b["fu"] * b["tw"] * (e2b + p2 - (n2 - 0.5) * d0) / G2 + b["fy"] * b["tw"] * (e1b + (n1 - 1) * p1 - (n1 - 0.5) * d0) / r3],
           "web", f"{where}: beam web shear, net shear, block tearing", 1e-9, 1e-3)
    ctx.eq([j.e1, j.e2, j.e1b, j.e2b, j.z, j.d0], [e1, e2, e1b, e2b, z, d0], "geometry", f"{where}: distances", 1e-9, 1e-9)
    ctx.state(canon([e1, e2, e1b, e2b, z, d0]))


def run_fin(case, ctx):
    FPJ = importlib.import_module("metku.structures.steel.fin_plate_joint")
    PL = importlib.import_module("metku.structures.steel.plates")
    J = importlib.import_module("metku.eurocodes.en1993.en1993_1_8.en1993_1_8")
    n1, n2 = case["n1"], case["n2"]
    S = {"beam": dims(*case["beam"]), "d": case["d"], "cls": case["cls"], "n1": n1, "n2": n2, "tp": 10.0, "p1": 70.0, "p2": 60.0 if n2 > 1 else 0.0, "x0": 60.0, "bp": 110.0 + 60.0 * (n2 > 1), "gh": 10.0, "pos": 0.0}
    S["hp"] = 90.0 + (n1 - 1) * 70.0
    plate = PL.RectPlateWithHoles(width=S["bp"], depth=S["hp"], thickness=S["tp"], d0=hole(S["d"]), x0=[S["x0"], 45.0], px=S["p2"], py=S["p1"], n1=n1, n2=n2, material="S275")
    j = FPJ.FinPlateJoint(section(*case["beam"]), plate, bolt=J.Bolt(S["d"], S["cls"], 50.0), gh=S["gh"])
    fin_judge(S, j, ctx, f"{case} created")
    for k, (ed, v) in enumerate(case["edits"]):
        ctx.step()
        if ed == "tp":
            S["tp"] = j.tp = v
        elif ed == "hp":
            S["hp"] = j.hp = v + 70.0 * (n1 - 3)
        elif ed == "p1":
            S["p1"] = j.p1 = v
        elif ed == "p2":
            if n2 == 1:
                ctx.undefined += 1
                return
            S["p2"] = j.p2 = v
        elif ed == "bp":
            S["bp"] = j.bp = v + 60.0 * (n2 > 1)
        elif ed == "d":
            S["d"] = j.bolt.size = v
        elif ed == "gh":
            S["gh"] = j.gh = v
        elif ed == "pos":
            S["pos"] = j.plate_pos_y = v
        elif ed == "beam":
            j.beam = section(*v)
            S["beam"] = dims(*v)
        fin_judge(S, j, ctx, f"{case} after edit {k + 1}")


def families(tier):
    return [
        Family("end-plates", lambda: configs(tier), run_config, "every end-plate joint: rows x extended/flush x plate width x column x beam x bolt x thickness x gauge; asked in five orders", "8 x 3 x 3 (5) x 2 (4) x 3 x 3 x 2"),
        Family("end-plate-histories", lambda: hists(tier), run_hist, "every history of edits of an end-plate joint, judged after every edit and against a new joint", "4 joints x 33 edits, pairs of edits on 2 (4) joints; thorough: all triples of 18 kinds"),
        Family("fin-plates", lambda: fin_cases(tier), run_fin, "every fin-plate joint and history of edits", "36 joints x 0..1 (2) edits of 15"),
    ]
