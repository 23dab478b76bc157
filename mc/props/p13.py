"""P13: catalogue profiles match their name, the published tables and their own geometry."""
import itertools
import json
import math
import os
import re
from ..core import Family
from ..drv import sections as S

HERE = os.path.dirname(os.path.abspath(__file__))
# published values (EN 10365 product tables): A [cm2], Iy [cm4], and for IPE Iz [cm4], Wpl,y [cm3], It [cm4]
IPE_N = [80, 100, 120, 140, 160, 180, 200, 220, 240, 270, 300, 330, 360, 400, 450, 500, 550, 600]
IPE = {"A": [7.64, 10.3, 13.2, 16.4, 20.1, 23.9, 28.5, 33.4, 39.1, 45.9, 53.8, 62.6, 72.7, 84.5, 98.8, 116, 134, 156],
       "Iy": [80.1, 171, 318, 541, 869, 1317, 1943, 2772, 3892, 5790, 8356, 11770, 16270, 23130, 33740, 48200, 67120, 92080],
       "Iz": [8.49, 15.9, 27.7, 44.9, 68.3, 101, 142, 205, 284, 420, 604, 788, 1043, 1318, 1676, 2142, 2668, 3387],
       "Wply": [23.2, 39.4, 60.7, 88.3, 124, 166, 221, 285, 367, 484, 628, 804, 1019, 1307, 1702, 2194, 2787, 3512]}
HE_N = [100, 120, 140, 160, 180, 200, 220, 240, 260, 280, 300, 320, 340, 360, 400, 450, 500, 550, 600, 650, 700, 800, 900, 1000]
HEA = {"A": [21.2, 25.3, 31.4, 38.8, 45.3, 53.8, 64.3, 76.8, 86.8, 97.3, 112.5, 124.4, 133.5, 142.8, 159, 178, 197.5, 211.8, 226.5, 241.6, 260.5, 285.8, 320.5, 346.8],
       "Iy": [349, 606, 1033, 1673, 2510, 3692, 5410, 7763, 10450, 13670, 18260, 22930, 27690, 33090, 45070, 63720, 86970, 111900, 141200, 175200, 215300, 303400, 422100, 553800]}
HEB = {"A": [26.0, 34.0, 43.0, 54.3, 65.3, 78.1, 91.0, 106, 118.4, 131.4, 149.1, 161.3, 170.9, 180.6, 197.8, 218, 238.6, 254.1, 270, 286.3, 306.4, 334.2, 371.3, 400],
       "Iy": [450, 864, 1509, 2492, 3831, 5696, 8091, 11260, 14920, 19270, 25170, 30820, 36660, 43190, 57680, 79890, 107200, 136700, 171000, 210600, 256900, 359100, 494100, 644700]}
HEM_A = [53.2, 66.4, 80.6, 97.1, 113.3, 131.3, 149.4, 199.6, 219.6, 240.2, 303.1, 312.0, 315.8, 318.8, 325.8, 335.4, 344.3, 354.4, 363.7, 373.7, 383.0, 404.3, 423.6, 444.2]
UNIT = {"A": 1e2, "Iy": 1e4, "Iz": 1e4, "Wply": 1e3}
CAT = json.load(open(os.path.join(HERE, "..", "ref", "catalogue.json")))


def published(name):
    p = name.split()
    out = {}
    if p[0] == "IPE" and int(p[1]) in IPE_N:
        out = {q: v[IPE_N.index(int(p[1]))] for q, v in IPE.items()}
    if p[0] == "HE" and int(p[1]) in HE_N:
        k = HE_N.index(int(p[1]))
        if p[2] in "AB":
            out = {q: v[k] for q, v in {"A": HEA, "B": HEB}[p[2]].items()}
        elif p[2] == "M":
            out = {"A": HEM_A[k]}
    return out


def dims_of(name):
    """dimensions according to the tables kept with the checks; hollow sections: according to the name"""
    p = name.split()
    if p[0] in ("SHS", "RHS", "CHS"):
        v = [float(x) for x in re.split("[xX]", p[1])]
        if p[0] == "CHS":
            return "CHS", {"D": v[0], "T": v[1]}
        return "RHS", {"H": v[0], "B": v[1], "T": v[2]}
    e = CAT[name]
    return "I", {"H": e[0], "B": e[1], "tw": e[2], "tf": e[3], "r": e[4]}


def build(how, name, mat):
    from metku.sections.steel import catalogue as C
    import importlib
    I, R, Q = [importlib.import_module("metku.sections.steel." + m) for m in ("ISection", "RHS", "CHS")]
    p = name.split()
    if how == "key":
        return C.make_section(name, mat)
    if p[0] == "IPE":
        return I.IPE(int(p[1]), mat)
    if p[0] == "HE":
        return getattr(I, "HE" + p[2])(int(p[1]), mat)
    v = [float(x) for x in re.split("[xX]", p[1])]
    if p[0] == "CHS":
        return Q.CHS(v[0], v[1], mat)
    if p[0] == "SHS":
        return R.SHS(v[0], v[2], mat)
    return R.RHS(v[0], v[1], v[2], mat)


def listed(name):
    """every catalogue dictionary that lists the profile gives the same dimensions"""
    from metku.sections.steel import catalogue as C
    out = []
    for n in ("profile", "ipe_profiles", "hea_profiles", "heb_profiles", "h_profiles", "shs_profiles", "rhs_profiles", "chs_profiles"):
        d = getattr(C, n)
        if name in d:
            out.append((n, d[name]))
    return out


def run(case, ctx):
    name, mat, how = case["name"], case["mat"], case["how"]
    kind, d = dims_of(name)
    if how == "key" and name.startswith("HE") and name.split()[2] not in "AB":
        ctx.undefined += 1  # the by-name constructor says that it supports HEA and HEB only
        return
    s = build(how, name, mat)
    d = dict(d, fy=mat if isinstance(mat, str) else "S%d" % mat)
    S.compare(ctx, s, kind, d, False, name)
    ctx.state((name, mat))
    if kind == "I":
        ctx.eq([s.h, s.b, s.tw, s.tf, s.r], CAT[name], "dims", f"{name}: dimensions", 1e-9)
    elif kind == "RHS":
        ctx.eq([s.H, s.B, s.T], [d["H"], d["B"], d["T"]], "dims", f"{name}: dimensions", 1e-9)
    else:
        ctx.eq([s.D, s.T], [d["D"], d["T"]], "dims", f"{name}: dimensions", 1e-9)
    for q, v in published(name).items():
        ctx.eq(float(getattr(s, q)), v * UNIT[q], "published-" + q, f"{name}: published {q}", 6e-3)
    ls = listed(name)
    ctx.expect(bool(ls), "listed", f"{name} is in no catalogue")
    for n, e in ls:
        if kind == "I":
            ctx.eq([e["h"], e["b"], e["t_w"], e["t_f"], e["r"]], CAT[name], "entry", f"{name} in {n}", 1e-9)
        elif kind == "RHS":
            ctx.eq([e["h"], e["b"], e["t"]], [d["H"], d["B"], d["T"]], "entry", f"{name} in {n}", 1e-9)
            if "r" in e:
                ctx.eq(e["r"], S.radius(d["T"]), "entry-r", f"{name} in {n}: corner radius", 1e-9)
        else:
            ctx.eq([e["d"], e["t"]], [d["D"], d["T"]], "entry", f"{name} in {n}", 1e-9)
    if kind == "I" and not name.startswith("HE") or name.startswith(("HE",)) and name.split()[-1] in "AB":
        ctx.expect(repr(s) == name, "name", f"{name} calls itself {s!r}")
    # depth of an H-section series: A and AA are lower, B is nominal, C and M are higher than the name
    if name.startswith("HE"):
        n, t = int(name.split()[1]), name.split()[2]
        ctx.expect({"AA": s.h < n, "A": s.h <= n - 4, "B": s.h == n, "C": s.h > n, "M": s.h > n}[t], "series", f"{name}: depth {s.h}")


def run_order(case, ctx):
    """design lists: areas of the square hollow sections and I/H series grow along the list"""
    from metku.sections.steel import catalogue as C
    seq = [C.make_section(k).A for k in getattr(C, case["list"])]
    for a, b in zip(seq, seq[1:]):
        ctx.expect(b >= a * (1 - 1e-9), "order", f"{case['list']}: area decreases along the list {a} -> {b}")
    ctx.state(case["list"])


def names():
    out = list(CAT)
    out += json.load(open(os.path.join(HERE, "..", "ref", "hollow.json")))
    return out


def cases(tier):
    for n in names():
        for how in ("key", "class"):
            for mat in (["S355", "S235", 420, "S460M", "S700"] if tier == "thorough" else ["S355" if how == "key" else 420]):
                yield {"name": n, "how": how, "mat": mat}


def same_set(case, ctx):
    from metku.sections.steel import catalogue as C
    have = set()
    for n in ("profile", "ipe_profiles", "hea_profiles", "heb_profiles", "h_profiles", "shs_profiles", "rhs_profiles", "chs_profiles"):
        have |= set(getattr(C, n))
    ctx.expect(set(names()) <= have, "missing", f"profiles missing from the catalogues: {sorted(set(names()) - have)[:5]}")
    ctx.state("set")


# ------------------------------------------------------------- profiles of metku.profiles

ATTRS = ["IPE%d" % n for n in IPE_N] + ["HE%s%d" % (t, n) for t in "ABM" for n in HE_N]
DIMS = ("h", "b", "tw", "tf", "r")


def judge_profile(ctx, s, d, what):
    """properties of the profile object with the dimensions d (h, b, tw, tf, r)"""
    h, b, tw, tf, r = d
    p = S.closed("I", {"H": h, "B": b, "tw": tw, "tf": tf, "r": r})
    want = {"A": p["A"], "Avz": p["Ashear"][1], "Avy": 2 * b * tf, "Iy": p["I"][0], "Iz": p["I"][1],
            "Wely": 2 * p["I"][0] / h, "Welz": 2 * p["I"][1] / b, "Wply": p["Wpl"][0], "Wplz": p["Wpl"][1], "Iw": p["Iw"],
            "iy": (p["I"][0] / p["A"]) ** 0.5, "iz": (p["I"][1] / p["A"]) ** 0.5, "It": p["It"],
            "P": 4 * b - 2 * tw + 2 * h - (8 - 2 * math.pi) * r}
    for q, v in want.items():
        # rounded coefficients of the fillets in the published formulas
        ctx.eq(float(getattr(s, q)), v, "profile-" + q, f"{what}: {q}", 2e-4)
    ctx.eq([float(v) for v in s.I], [s.Iy, s.Iz], "profile-I", f"{what}: I", 1e-12)


def run_profiles(case, ctx):
    """a profile of metku.profiles.steel, and a history of copies and changes of dimensions of the copies: the profile of
    the catalogue keeps its dimensions, each copy has its own, and the properties follow the dimensions"""
    import copy
    from metku.profiles.steel import ISections
    name = case["name"]
    i = re.match("([A-Z]+)([0-9]+)", name)
    key = "IPE " + i.group(2) if i.group(1) == "IPE" else "HE %s %s" % (i.group(2), i.group(1)[2])
    d = tuple(CAT[key])
    orig = getattr(ISections, name)
    objs, refs = [orig], [d]
    for op in case["ops"]:
        if op == "copy":
            objs.append(copy.copy(orig))
            refs.append(d)
        elif op == "copy2":
            objs.append(copy.copy(objs[-1]))
            refs.append(refs[-1])
        elif op != "check" and len(objs) > 1:
            k, f = op
            e = list(refs[-1])
            e[DIMS.index(k)] *= f
            setattr(objs[-1], k, e[DIMS.index(k)])
            refs[-1] = tuple(e)
        if op == "check":
            judge_profile(ctx, objs[-1], refs[-1], f"{name}, {case['ops']}")
    for o, e in zip(objs, refs):
        ctx.eq([o.h, o.b, o.tw, o.tf, o.r], list(e), "profile-dims", f"{name}: dimensions", 1e-9)
        judge_profile(ctx, o, e, f"{name}, {case['ops']}")
        ctx.expect(o.name == name, "profile-name", f"{name} calls itself {o.name}")
    ctx.state((name, str(case["ops"])))


def profile_cases(tier):
    ops = ["copy", "copy2", "check"] + [(k, f) for k in DIMS for f in (0.9, 1.1)]
    for name in ATTRS:
        yield {"name": name, "ops": ()}
        for a in [(k, 1.1) for k in DIMS]:
            yield {"name": name, "ops": ("copy", a)}
    few = ("IPE80", "HEA300", "HEM1000")
    for name in (ATTRS if tier == "thorough" else few):
        for seq in itertools.product(ops, repeat=3 if tier == "thorough" and name in few else 2):
            yield {"name": name, "ops": ("copy",) + seq}


def families(tier):
    return [
        Family("profiles", lambda: profile_cases(tier), run_profiles,
               "every profile of metku.profiles x copies, changes of dimensions of the copies, and queries",
               "every profile x every change; every history of depth 2 of %s" % ("every profile, of depth 3 of three profiles" if tier == "thorough" else "three profiles")),
        Family("catalogue", lambda: cases(tier), run, "every profile of every catalogue x way of creation x steel grade",
               "all %d catalogue profiles" % len(names())),
        Family("catalogue-set", lambda: [{"all": 1}], same_set, "the set of listed profiles", "complete"),
        Family("catalogue-order", lambda: [{"list": l} for l in ORDERED], run_order, "order of the lists used by design", "complete"),
    ]


ORDERED = ["ipe_profiles", "hea_profiles", "heb_profiles", "shs_profiles"]
