"""P27: frames and trusses described by members (Frame2D, SimpleTruss) are analysed as described.

The reference is built from the description alone: members are split wherever they meet another
member, a support or a point load, a line load varies linearly between the ends of its member, and
the structure is solved by mc/ref/frame.py.  The nodes of the code's own mesh are only used as the
points where the two solutions are compared.
"""
import itertools
import math
import numpy as np
from ..core import Family, histories, canon, close_scaled, short
from ..ref import frame as RF
from ..drv import sections as SEC
from . import p13

SUP = {"f": [0, 1, 2], "x": [0], "y": [1], "xy": [0, 1]}
H, L = 4000.0, 6000.0


def lib():
    import metku.frame2d.frame2d as F
    return F


def ids():
    I = lib().LoadIDs
    return {"U": I.ULS, "S": I.SLS_Frequent, "A": I.Accidental}


# ---------------------------------------------------------------- descriptions
def mem(c0, c1, kind="mem", **kw):
    return dict({"c": [list(map(float, c0)), list(map(float, c1))], "kind": kind, "prof": "IPE 300"}, **kw)


PORTAL = [mem([0, 0], [0, H], "col", prof="HE 200 A"), mem([0, H], [L, H], "beam"), mem([L, 0], [L, H], "col", prof="HE 200 A")]
FEET = [[[0.0, 0.0], "f"], [[L, 0.0], "f"]]
PINS = [[[0.0, 0.0], "xy"], [[L, 0.0], "xy"]]
MIXED = [[[0.0, 0.0], "f"], [[L, 0.0], "y"]]


def tilt(p):
    """a frame of its own axes: rotate by an angle without round numbers"""
    a = 0.37
    return [round(p[0] * math.cos(a) - p[1] * math.sin(a), 3), round(p[0] * math.sin(a) + p[1] * math.cos(a), 3)]


LAYOUTS = {
    "beam": ([mem([0, 0], [L, 0], "beam")], [[[0.0, 0.0], "xy"], [[L, 0.0], "y"]]),
    "two-span": ([mem([0, 0], [L, 0], "beam")], [[[0.0, 0.0], "xy"], [[2500.0, 0.0], "y"], [[L, 0.0], "y"]]),
    "backward": ([mem([L, 0], [0, 0], "beam"), mem([L, 3000], [L, 0], "col")], [[[0.0, 0.0], "y"], [[L, 3000.0], "f"]]),
    "slope": ([mem([0, 0], [L, 1357])], [[[0.0, 0.0], "f"], [[1777.0, 1357 * 1777 / 6000], "y"]]),
    "portal": (PORTAL, FEET),
    "portal-pins": (PORTAL, PINS),
    "semi": ([PORTAL[0], dict(PORTAL[1], Sj=[4e9, 9e9]), PORTAL[2]], FEET),
    "semi-one": ([PORTAL[0], dict(PORTAL[1], Sj=[2e9, None]), PORTAL[2]], MIXED),
    "hinge": ([mem([0, 0], [0, H]), mem([0, H], [L, H], hinge=[1, 1]), mem([L, 0], [L, H])], FEET),
    "hinge-0": ([mem([0, 0], [0, H]), mem([0, H], [L, H], hinge=[1, 0]), mem([L, 0], [L, H])], PINS),
    "hinge-1": ([mem([0, 0], [0, H]), mem([0, H], [L, H], hinge=[0, 1]), mem([L, 0], [L, H])], FEET),
    "gable": ([PORTAL[0], mem([0, H], [3100, 5077], "beam"), mem([3100, 5077], [L, H], "beam"), PORTAL[2]], FEET),
    "cross": ([mem([0, 0], [L, H]), mem([0, 3000], [5000, 0])], [[[0.0, 0.0], "f"], [[5000.0, 0.0], "f"]]),
    "tee": ([mem([0, 0], [L, 1357]), mem([1777, -2000], [1777, 1357 * 1777 / 6000])], [[[0.0, 0.0], "xy"], [[1777.0, -2000.0], "f"]]),
    "tee-first": ([mem([2500, -3000], [2500, 0], "col"), mem([0, 0], [L, 0], "beam")], [[[0.0, 0.0], "y"], [[2500.0, -3000.0], "f"]]),
    "braced": (PORTAL + [mem([0, 0], [L, H], "bar", prof="RHS 100X60X5.0", ne=1)], PINS),
    "two-storey": ([mem([0, 0], [0, H], "col"), mem([0, H], [0, 7000], "col"), mem([0, H], [L, H], "beam"), mem([0, 7000], [L, 7000], "beam"),
                    mem([L, 0], [L, 7000], "col", prof="WI 300-8-20X160-12X220")], FEET),
    "long-column": ([mem([0, 0], [0, 7000], "col", prof="SHS 200X8.0"), mem([0, 4321], [L, 4321], "beam", prof="CHS 219.1X8.0"), mem([0, 7000], [L, 7000], "beam"),
                     mem([L, 0], [L, 7000], "col", prof="HE 240 B")], MIXED),
    "grid": ([mem([0, 1500], [L, 1500]), mem([0, 3500], [L, 3500]), mem([1700, 0], [1700, 5000]), mem([4200, 0], [4200, 5000])],
             [[[1700.0, 0.0], "f"], [[4200.0, 0.0], "xy"], [[0.0, 3500.0], "x"]]),
}
for _n in ("portal", "two-span", "cross"):
    _m, _s = LAYOUTS[_n]
    LAYOUTS["tilted " + _n] = ([dict(m, c=[tilt(p) for p in m["c"]], kind="mem") for m in _m], [[tilt(p), "xy" if d == "y" else d] for p, d in _s])


def at(m, t):
    (x1, y1), (x2, y2) = m["c"]
    return [x1 + t * (x2 - x1), y1 + t * (y2 - y1)]


def load_alphabet(mems, tier):
    """(name, load description)"""
    out = []
    pats = [([-20, -20], "y", "global"), ([-20, -5], "y", "global"), ([4, 9], "y", "local"), ([3, -2], "x", "global"), ([2, 5], "x", "local")]
    k = len(mems)
    for i in ([0, k - 1] if tier == "quick" else range(k)):
        for j, (q, d, cs) in enumerate(pats):
            if mems[i]["kind"] == "bar":
                continue
            out.append({"k": "L", "m": i, "q": q, "dir": d, "cs": cs, "id": "US"[j % 2], "f": [1.0, 1.35][j % 2]})
        for t in (0.0, 0.37, 1.0):
            if mems[i]["kind"] == "bar" and t not in (0.0, 1.0):
                continue
            out.append({"k": "P", "c": at(mems[i], t), "v": [5e3, -3e4, 2e6 * (t != 0.37)], "id": "SU"[int(t == 0.37)], "f": 1.0 if t else 1.5})
    return out


def desc_cases(tier):
    for name, (ms, su) in LAYOUTS.items():
        al = load_alphabet(ms, tier)
        nes = (1, 2, 5) if tier == "quick" else (1, 2, 3, 4, 5, 8)
        words = [[a] for a in al] + [[a, b] for a in al for b in al if a is not b and (tier != "quick" or (al.index(a) + 2 * al.index(b)) % 5 == 0)]
        for w in words:
            for ne in nes if len(w) == 1 else nes[-1:]:
                yield {"layout": name, "loads": w, "ne": ne, "order": "msl", "flip": False}
        # every load at once, in different orders (several loads of the same kind and load case)
        for i in range(len(al) if tier != "quick" else 3):
            yield {"layout": name, "loads": al[i:] + al[:i], "ne": 3, "order": ("msl", "lms")[i % 2], "flip": False}
        mixed = [al[1], [a for a in al if a["k"] == "P"][1], al[-1]]
        for order in itertools.permutations("msl"):
            for flip in (False, True):
                yield {"layout": name, "loads": mixed, "ne": 4, "order": "".join(order), "flip": flip}
        yield {"layout": name, "loads": mixed, "ne": 4, "order": "msl", "flip": False, "sw": True}


# ---------------------------------------------------------------- driver
class Model:
    def __init__(self, mems, supports, loads, ne=4, order="msl", flip=False, frame_ne=None, sw=False):
        F = lib()
        I = ids()
        self.mems, self.sup, self.loads = [dict(m) for m in mems], [list(s) for s in supports], [dict(l) for l in loads]
        self.fr = F.Frame2D(num_elements=frame_ne)
        self.ms = []
        for m in self.mems:
            cls = {"beam": F.SteelBeam, "col": F.SteelColumn, "mem": F.SteelFrameMember, "bar": F.SteelFrameMember}[m["kind"]]
            kw = {"mtype": "bar"} if m["kind"] == "bar" else {}
            o = cls([list(c) for c in m["c"]], profile=m["prof"], num_elements=m.get("ne", ne), **kw)
            for i, h in enumerate(m.get("hinge", [0, 0])):
                if h:
                    o.add_hinge(i)
            for i, v in enumerate(m.get("Sj", [None, None])):
                if v is not None:
                    setattr(o, "Sj%d" % (i + 1), v)
            self.ms.append(o)
        self.fl = []
        for o in order:
            if o == "m":
                for m in (self.ms[::-1] if flip else self.ms):
                    self.fr.add(m)
            elif o == "s":
                for c, d in self.sup:
                    self.fr.add({"f": F.FixedSupport, "x": F.XHingedSupport, "y": F.YHingedSupport, "xy": F.XYHingedSupport}[d](list(c)))
            else:
                for l in self.loads:
                    self.add_load(l)
        self.fr.generate(self_weight=True) if sw else self.fr.generate()
        if sw:
            for i, o in enumerate(self.ms):
                q = -10 * o.cross_section.A * 7850e-9
                self.loads.append({"k": "L", "m": i, "q": [q, q], "dir": "y", "cs": "global", "id": "U", "f": 1.0})

    def add_load(self, l):
        F = lib()
        lid = ids()[l["id"]]
        if l["k"] == "P":
            o = F.PointLoad(list(l["c"]), list(l["v"]), load_id=lid, f=l["f"])
        else:
            o = F.LineLoad(self.ms[l["m"]], list(l["q"]), l["dir"], load_id=lid, f=l["f"], coord_sys=l["cs"])
        self.fr.add(o)
        self.fl.append(o)

    def points(self):
        return [n.coord for n in self.fr.f.nodes]

    def reference(self):
        return build(self.mems, self.sup, self.loads, [(o.cross_section.A, float(o.cross_section.I[0])) for o in self.ms], self.points())


def locate(p, m):
    """relative position of a point on a member, or None"""
    (x1, y1), (x2, y2) = m["c"]
    dx, dy = x2 - x1, y2 - y1
    n2 = dx * dx + dy * dy
    t = ((p[0] - x1) * dx + (p[1] - y1) * dy) / n2
    d = abs((p[0] - x1) * dy - (p[1] - y1) * dx) / math.sqrt(n2)
    e = 2e-3 / math.sqrt(n2)
    return min(max(t, 0.0), 1.0) if d < 2e-3 and -e <= t <= 1 + e else None


def meet(m, n):
    (x1, y1), (x2, y2) = m["c"]
    (x3, y3), (x4, y4) = n["c"]
    D = (x2 - x1) * (y4 - y3) - (y2 - y1) * (x4 - x3)
    if abs(D) < 1e-6:
        return []
    t = ((x3 - x1) * (y4 - y3) - (y3 - y1) * (x4 - x3)) / D
    p = [x1 + t * (x2 - x1), y1 + t * (y2 - y1)]
    return [p] if locate(p, m) is not None and locate(p, n) is not None else []


def build(mems, sup, loads, secs, samples, E=210e3):
    pts = []

    def node(p):
        for i, q in enumerate(pts):
            if abs(q[0] - p[0]) < 3e-3 and abs(q[1] - p[1]) < 3e-3:
                return i
        pts.append([float(p[0]), float(p[1])])
        return len(pts) - 1
    M = {"nodes": pts, "els": [], "supp": [], "loads": []}
    segs = []
    for k, m in enumerate(mems):
        cand = [m["c"][0], m["c"][1]] + [l["c"] for l in loads if l["k"] == "P"] + [s[0] for s in sup]
        for j, n in enumerate(mems):
            if j != k:
                # two bars that cross between their ends are not connected to each other
                if m["kind"] != "bar" and n["kind"] != "bar":
                    cand += meet(m, n)
                cand += [p for p in n["c"] if locate(p, m) is not None]
        cand += list(samples)
        ts = {}
        for p in cand:
            t = locate(p, m)
            if t is not None and (m["kind"] != "bar" or t in (0.0, 1.0)):
                ts.setdefault(node(p), t)
        ts = sorted((t, i) for i, t in ts.items())
        mine = []
        for (t1, a), (t2, b) in zip(ts, ts[1:]):
            A, I = secs[k]
            e = {"t": "rod" if m["kind"] == "bar" else "beam", "n": [a, b], "A": A, "I": I, "E": E, "rel": []}
            h, sj = m.get("hinge", [0, 0]), m.get("Sj", [None, None])
            if a == ts[0][1] and h[0]:
                e["rel"].append(2)
            if b == ts[-1][1] and h[1]:
                e["rel"].append(5)
            rs = [sj[0] if a == ts[0][1] and sj[0] is not None else RF.RIGID, sj[1] if b == ts[-1][1] and sj[1] is not None else RF.RIGID]
            if rs != [RF.RIGID] * 2:
                e.update(t="semi", rs=rs)
            mine.append((len(M["els"]), t1, t2, a, b))
            M["els"].append(e)
        segs.append(mine)
    for c, d in sup:
        M["supp"].append([1, node(c), SUP[d]])
    for l in loads:
        if l["k"] == "P":
            M["loads"].append({"k": "P", "sid": l["id"], "n": node(l["c"]), "v": l["v"], "f": l["f"]})
        else:
            for e, t1, t2, _, _ in segs[l["m"]]:
                q = [l["q"][0] + (l["q"][1] - l["q"][0]) * t for t in (t1, t2)]
                M["loads"].append({"k": "L", "sid": l["id"], "el": e, "q": q, "dir": l["dir"], "cs": l["cs"], "f": l["f"]})
    return M, segs, node


def judge(ctx, S, lid, key, what, tol=5e-5):
    """compare everything that the frame reports for one load id"""
    M, segs, node = S.reference()
    try:
        U0, F0 = RF.solve(M, 1, lid)
    except RF.Singular:
        ctx.undefined += 1
        return False
    I = ids()[lid]
    su = max(1e-6, float(np.abs(U0[:, :2]).max()))
    for n in S.fr.f.nodes:
        i = node(n.coord)
        u = np.asarray(n.u[I], float)
        ctx.expect(close_scaled(u[:2], U0[i, :2], su, tol), key + "-displacement", f"{what}: node at {short(n.coord)} moves {short(u)}, reference {short(U0[i])}")
    sf = max([1.0] + [abs(v) for f in F0 for k in ("fx", "fz") if k in f for v in f[k]])
    span = max(math.dist(*m["c"]) for m in S.mems)
    for k, (m, o) in enumerate(zip(S.mems, S.ms)):
        start, end = {a: e for e, _, _, a, b in segs[k]}, {b: e for e, _, _, a, b in segs[k]}
        els = list(o.elements.values())
        ctx.expect(len(els) >= 1, key + "-mesh", f"{what}: member {k} has no elements")
        allf = {"fx": [], "fz": [], "my": []}
        at_node = []
        for el in els:
            a, b = (node(n.coord) for n in el.nodes)
            for q in allf:
                if q not in F0[segs[k][0][0]]:
                    continue
                want = [F0[start[a]][q][0], F0[end[b]][q][1]] if a in start and b in end else None
                sc = sf * (span if q == "my" else 1.0)
                got = [float(v) for v in el.fint[I][q]]
                ctx.expect(want is not None and close_scaled(got, want, sc, tol), key + "-" + q,
                           f"{what}: member {k} between {short(el.nodes[0].coord)} and {short(el.nodes[1].coord)}: {q} {short(got)}, reference {short(want)}")
                allf[q] += want or []
            at_node.append((a, b))
        for q, prop in (("fx", "NEd"), ("fz", "VEd"), ("my", "MEd")):
            if allf[q]:
                g = float(getattr(o, prop)[I])
                w = max(allf[q], key=abs)
                sc = sf * (span if q == "my" else 1.0)
                ctx.expect(abs(abs(g) - abs(w)) <= 4 * tol * sc, key + "-max", f"{what}: member {k} largest {q} reported {g}, reference {w}")
                # the sign, unless both signs have the same size
                if max((abs(v) for v in allf[q] if v * w < 0), default=0.0) < abs(w) - 1e-3 * sc:
                    ctx.expect(g * w >= -1e-9 * sc * sc, key + "-max", f"{what}: member {k} largest {q} reported {g}, reference {w}")
        D = {i: v for i, v in o.nodal_displacements[I].items()}
        for i, v in D.items():
            u = np.asarray(v, float)
            ctx.expect(close_scaled(u[:2], U0[node(o.nodes[i].coord), :2], su, tol), key + "-member-displacement", f"{what}: member {k} displacement of node {i}")
        if m["kind"] != "bar":
            for q, j in (("dx", 0), ("dy", 1)):
                w = [U0[node(n.coord), j] for n in o.nodes.values()]
                ctx.expect(abs(abs(getattr(o, q)[I]) - max(map(abs, w))) <= 4 * tol * su, key + "-member-displacement", f"{what}: member {k} {q} {getattr(o, q)[I]}, reference {max(w, key=abs)}")
    ctx.state((what, lid, canon(su), canon(sf)))
    return True


def member_r(o, forces, length):
    """utilisation of a member of its own made of the given sections"""
    from metku.structures.steel.steel_member import SteelMember
    s = SteelMember(o.cross_section, length, Lcr=[1.0, 1.0], mtype=o.member.type)
    for loc, (N, V, M) in forces.items():
        s.add_section(ned=N, vzed=V, myed=M, loc=loc)
    return s.design()


def sections_of(o, I):
    """internal forces at the nodes of a member: the larger absolute value of the two sides"""
    out = {}
    c0 = np.asarray(o.coordinates[0], float)
    for el in o.elements.values():
        for j, n in enumerate(el.nodes):
            loc = round(float(np.linalg.norm(np.asarray(n.coord) - c0)) / o.length, 3)
            f = out.setdefault(loc, [0.0, 0.0, 0.0])
            for i, q in enumerate(("fx", "fz", "my")):
                f[i] = max(f[i], float(el.fint[I][q][j]), key=abs)
    return out


def check_r(ctx, S, key, what):
    for k, o in enumerate(S.ms):
        for I in S.fr.load_ids:
            w = float(member_r(o, sections_of(o, I), o.length))
            ctx.eq(float(o.r[I]), w, key, f"{what}: utilisation of member {k} for {I.name}", 1e-4, 1e-9)
        ctx.expect(o.is_strong_enough == (o.r[S.fr.load_ids[-1]] <= 1.0), key, f"{what}: member {k} is_strong_enough")


def run_desc(case, ctx):
    ms, su = LAYOUTS[case["layout"]]
    S = Model(ms, su, case["loads"], case["ne"], case["order"], case["flip"], sw=case.get("sw", False))
    what = f"{case['layout']} order {case['order']}{' members reversed' if case['flip'] else ''} {case['ne']} elements, {case['loads']}"
    for m, o in zip(ms, S.ms):
        check_profile(ctx, m["prof"], o)
    used = [l for l in "SUA" if any(x["id"] == l for x in S.loads)]
    S.fr.calculate("ALL", "REM" if case["ne"] != 5 else "ZERO")
    ctx.expect({i.name for i in S.fr.load_ids} == {ids()[l].name for l in used}, "load-ids", f"{what}: load ids {S.fr.load_ids}")
    good = [judge(ctx, S, lid, "described", what) for lid in used]
    if all(good):
        check_r(ctx, S, "utilisation", what)
    X = [c[0] for m in ms for c in m["c"]]
    Y = [c[1] for m in ms for c in m["c"]]
    ctx.eq([S.fr.L, S.fr.H], [max(X) - min(X), max(Y) - min(Y)], "size", f"{what}: span and height", 1e-6)
    ctx.eq(S.fr.weight, sum(o.cross_section.A * 7850e-9 * math.dist(*m["c"]) for m, o in zip(ms, S.ms)), "weight", f"{what}: weight", 1e-6)


def check_profile(ctx, name, o):
    s = o.cross_section
    if name.startswith("WI"):
        h, tw, tf1, b1, tf2, b2 = (float(x) for x in name.split()[1].replace("X", "-").split("-"))
        ctx.eq([s.h, s.tw, s.bt, s.bb, s.tt, s.tb], [h, tw, b1, b2, tf1, tf2], "profile", f"{name}: dimensions", 1e-9)
        return
    if name.startswith("SHS"):
        name = "SHS {0}X{0}X{1}".format(*name.split()[1].split("X"))
    kind, d = p13.dims_of(name)
    p = SEC.ref(kind, dict(d, fy="S355"))
    ctx.eq([s.A, float(s.I[0]), float(s.Wpl[0])], [p["A"], p["I"][0], p["Wpl"][0]], "profile", f"{name}: section of the member", 4e-4)


# ---------------------------------------------------------------- generated frames
def simple_cases(tier):
    n = 2 if tier == "quick" else 3
    for st, ba in itertools.product(range(1, n + 1), range(1, n + 1)):
        for sup in ("FIXED", "XYHINGED", "YHINGED", "fixed", "XHINGED"):
            for beams in (True, False):
                yield {"storeys": st, "bays": ba, "sup": sup, "beams": beams, "ne": 2 if (st + ba) % 2 else 4}


def run_simple(case, ctx):
    F = lib()
    st, ba = case["storeys"], case["bays"]
    h, l = 3400.0, 5200.0
    fr = F.Frame2D(simple=[st, ba, h, l], supports=case["sup"], num_elements=case["ne"], create_beams=case["beams"])
    cols = [([i * l, j * h], [i * l, (j + 1) * h]) for i in range(ba + 1) for j in range(st)]
    bms = [([i * l, (j + 1) * h], [(i + 1) * l, (j + 1) * h]) for i in range(ba) for j in range(st)] if case["beams"] else []

    def key(c):
        return tuple(sorted(tuple(float(round(v, 3)) for v in p) for p in c))
    got = sorted(key(m.coordinates) for m in fr.members.values())
    ctx.expect(got == sorted(key(c) for c in cols + bms), "generated", f"{case}: members {got}")
    ctx.expect(sorted(key(m.coordinates) for m in fr.columns) == sorted(key(c) for c in cols) and sorted(key(m.coordinates) for m in fr.beams) == sorted(key(c) for c in bms),
               "generated", f"{case}: columns and beams")
    if not case["beams"] and case["sup"] not in ("FIXED", "fixed"):
        ctx.undefined += 1
        return
    d = {"FIXED": "f", "XYHINGED": "xy", "YHINGED": "y", "XHINGED": "x"}[case["sup"].upper()]
    S = Model.__new__(Model)
    S.fr, S.ms, S.fl = fr, list(fr.members.values()), []
    S.mems = [{"c": [list(map(float, c)) for c in m.coordinates], "kind": "col" if m in fr.columns else "beam", "prof": "IPE 100"} for m in S.ms]
    S.sup = [[[i * l, 0.0], d] for i in range(ba + 1)]
    S.loads = []
    for i, m in enumerate(S.mems):
        if m["kind"] == "beam":
            S.loads.append({"k": "L", "m": i, "q": [-3.0 - i, -2.0], "dir": "y", "cs": "global", "id": "U", "f": 1.0})
    for j in range(st):
        S.loads.append({"k": "P", "c": [0.0, (j + 1) * h], "v": [1e3 + j, -500.0, 1e5], "id": "S", "f": 1.0})
    for ld in list(S.loads):
        S.add_load(ld)
    fr.generate()
    # a frame that can move freely has no results
    M, _, _ = S.reference()
    try:
        RF.solve(M, 1, "S")
    except RF.Singular:
        ctx.undefined += 1
        return
    fr.calculate("ALL", "REM")
    for lid in ("U", "S") if case["beams"] else ("S",):
        judge(ctx, S, lid, "simple", f"{case}")


# ---------------------------------------------------------------- histories
EDIT = ["prof", "prof2", "Sj", "hinge", "rigid", "move", "moveback", "regen", "pload", "lload", "acc", "calcU", "calcS", "ALL"]
BASE_LOADS = [{"k": "L", "m": 1, "q": [-20, -8], "dir": "y", "cs": "global", "id": "U", "f": 1.0},
              {"k": "P", "c": [1500.0, H], "v": [0, -2e4, 0], "id": "S", "f": 1.0},
              {"k": "P", "c": [0.0, H], "v": [7e3, 0, 1e6], "id": "S", "f": 1.0}]


def hist_cases(tier):
    for w in histories(EDIT, 3 if tier == "quick" else 4, mindepth=1, enabled=lambda w, a: not (w and w[-1] == a)):
        yield w


def run_hist(word, ctx):
    F = lib()
    S = Model([dict(m) for m in PORTAL], FEET, BASE_LOADS, 4)
    I = ids()
    dirty = True
    for k, op in enumerate(word + ["regen", "ALL"]):
        b = S.ms[1]
        what = f"{word} step {k + 1} ({op})"
        if op in ("prof", "prof2"):
            j, p = {"prof": (1, "IPE 200"), "prof2": (0, "SHS 150X6.3")}[op]
            S.ms[j].profile = S.mems[j]["prof"] = p
            check_profile(ctx, p, S.ms[j])
        elif op == "Sj":
            b.Sj1, b.Sj2 = 3e9, 8e9
            S.mems[1]["Sj"] = [3e9, 8e9]
        elif op == "hinge":
            S.fr.hinge_joints()
            S.mems[1]["Sj"] = [1e-4, 1e-4]
        elif op == "rigid":
            S.fr.rigid_joints()
            S.mems[1]["Sj"] = [None, None]
        elif op in ("move", "moveback"):
            a, c = ([0.0, 4500.0], [L + 400, 4200.0]) if op == "move" else ([0.0, H], [L, H])
            b.coordinates = [list(a), list(c)]
            S.mems[1]["c"] = [a, c]
            S.mems[0]["c"], S.mems[2]["c"] = [[0.0, 0.0], a], [[L, 0.0], c]
            for ld in S.loads:
                if ld["k"] == "P":
                    ld["c"] = at(S.mems[1], ld.setdefault("t", {1500.0: 0.25, 0.0: 0.0}.get(ld["c"][0], 0.5)))
        elif op == "regen":
            S.fr.generate()
        elif op in ("pload", "acc"):
            ld = {"k": "P", "c": at(S.mems[1], 0.5), "t": 0.5, "v": [2e3, -1e4, 0], "id": {"pload": "U", "acc": "A"}[op], "f": 1.0}
            S.loads.append(ld)
            S.add_load(ld)
            S.fr.generate()
        elif op == "lload":
            ld = {"k": "L", "m": 0, "q": [2, 1], "dir": "x", "cs": "global", "id": "S", "f": 1.0}
            S.loads.append(ld)
            S.add_load(ld)
            S.fr.generate()
        elif op in ("calcU", "calcS"):
            S.fr.calculate(I[op[-1]], "REM")
            judge(ctx, S, op[-1], "history", what, 2e-4)
        elif op == "ALL":
            S.fr.calculate("ALL", "REM")
            for lid in {"U", "S"} | {ld["id"] for ld in S.loads}:
                judge(ctx, S, lid, "history", what, 2e-4)
            check_r(ctx, S, "history-utilisation", what)


# ---------------------------------------------------------------- profile selection
def sel_cases(tier):
    for types in ("CURRENT", "IPE", "H", "RHS", "SHS", "CHS"):
        for fa, fb in ((1.0, 0.2), (0.1, 1.0), (1.0, 1.0), (8.0, 0.1), (0.05, 0.05)):
            for prof in ("IPE 300", "SHS 150X6.3", "HE 200 A") if types == "CURRENT" else ("IPE 300",):
                yield {"type": types, "U": fa, "S": fb, "prof": prof}


def run_sel(case, ctx):
    import metku.sections.steel.catalogue as C
    loads = [dict(BASE_LOADS[0], q=[-20 * case["U"], -8 * case["U"]]), {"k": "P", "c": [0.0, H], "v": [3e4 * case["S"], -4e5 * case["S"], 0], "id": "S", "f": 1.0}]
    S = Model([dict(m, prof=case["prof"]) for m in PORTAL], FEET, loads, 4)
    S.fr.calculate("ALL", "REM")
    lists = {"IPE": C.ipe_profiles, "H": C.h_profiles, "RHS": C.rhs_profiles, "SHS": C.shs_profiles, "CHS": C.chs_profiles}
    t = case["type"] if case["type"] != "CURRENT" else {"I": "IPE", "S": "SHS", "H": "H"}[case["prof"][0]]
    names = list(lists[t])
    for k, o in enumerate(S.ms):
        before = o.profile
        forces = {I: sections_of(o, I) for I in S.fr.load_ids}
        changed = o.optimum_design(case["type"])
        got = o.profile
        probe = S.ms[(k + 1) % 3]
        keep = probe.profile
        want = names[-1]
        for n in names:
            o.profile = n
            if all(float(member_r(o, f, o.length)) <= 1.0 for f in forces.values()):
                want = n
                break
        o.profile = want
        w = o.profile
        ctx.expect(got == w, "selected", f"{case} member {k}: selected {got}, first adequate profile of {t} is {w}")
        ctx.expect(changed == (got != before), "changed", f"{case} member {k}: change reported {changed}, profile {before} -> {got}")
        ctx.expect(probe.profile == keep, "selected", f"{case} member {k}: another member changed")
        ctx.state((t, k, got, canon(case)))
        o.profile = before
    # repeated selection and analysis: afterwards no member wants another profile
    S.fr.optimize_members(case["type"])
    S.fr.calculate("ALL", "REM")
    for k, o in enumerate(S.ms):
        S.mems[k]["prof"] = o.profile
    for lid in ("U", "S"):
        judge(ctx, S, lid, "optimized", f"{case} after profile selection", 2e-4)


# ---------------------------------------------------------------- trusses
def trusses():
    s3 = round(math.sqrt(3) * 1000, 3)
    x10 = [[2 * 3000, 3000], [2 * 3000, 0], [3000, 3000], [3000, 0], [0, 0], [0, 3000]]
    x15 = [[i * 1200, y] for y in (1200, 0) for i in range(4)]
    return {
        "three": ([[0, 0], [-1000, 1000], [0, 1000], [s3, 1000]], [[0, 1], [0, 2], [0, 3]], [1, 2, 3]),
        "ten": (x10, [[4, 2], [2, 0], [5, 3], [3, 1], [2, 3], [0, 1], [4, 3], [5, 2], [2, 1], [3, 0]], [4, 5]),
        "fifteen": (x15, [[0, 1], [1, 2], [2, 3], [4, 5], [5, 6], [6, 7], [5, 1], [6, 2], [7, 3], [0, 5], [4, 1], [1, 6], [5, 2], [2, 7], [6, 3]], [0, 4]),
        "warren": ([[0, 0], [1000, 900], [2100, 0], [3000, 950], [4000, 0]], [[0, 1], [1, 2], [2, 3], [3, 4], [0, 2], [2, 4], [1, 3]], [0, 4]),
    }


PROFS = ["SHS 50X3.0", "SHS 100X5.0", "RHS 120X80X6.0", "CHS 88.9X4.0"]


def truss_cases(tier):
    for name, (X, mems, sup) in trusses().items():
        free = [i for i in range(len(X)) if i not in sup]
        for i in free:
            for v in ([1e4, 0, 0], [0, -1e4, 0], [3e3, 4e3, 0]):
                for shift in range(2 if tier == "quick" else 4):
                    yield {"truss": name, "node": i, "v": v, "shift": shift}


def run_truss(case, ctx):
    from metku.frame2d.simple_truss import SimpleTruss
    F = lib()
    X, mems, sup = trusses()[case["truss"]]
    X = [list(map(float, x)) for x in X]
    S = Model.__new__(Model)
    profs = [PROFS[(i + case["shift"]) % 4] for i in range(len(mems))]
    S.fr = SimpleTruss([list(x) for x in X], mems, profs)
    S.ms = list(S.fr.members.values())
    S.mems = [mem(X[a], X[b], "bar", prof=p) for (a, b), p in zip(mems, profs)]
    S.sup = [[X[i], "xy"] for i in sup]
    S.fl, S.loads = [], []
    for i in sup:
        S.fr.add(F.XYHingedSupport(list(X[i])))
    for ld in ({"k": "P", "c": X[case["node"]], "v": case["v"], "id": "U", "f": 1.0}, {"k": "P", "c": X[(case["node"])], "v": [-2e3, 5e3, 0], "id": "S", "f": 2.0}):
        S.loads.append(ld)
        S.add_load(ld)
    S.fr.generate()
    for m, o in zip(S.mems, S.ms):
        check_profile(ctx, m["prof"], o)
    for round_ in range(2):
        S.fr.calculate("ALL", "REM")
        for lid in ("U", "S"):
            judge(ctx, S, lid, "truss", f"{case} analysis {round_ + 1}")
        check_r(ctx, S, "truss-utilisation", f"{case} analysis {round_ + 1}")
        for o, m in zip(S.ms[::2], S.mems[::2]):
            m["prof"] = "SHS 80X4.0"
            o.profile = m["prof"]


def families(tier):
    return [
        Family("described", lambda: desc_cases(tier), run_desc, "structure x loads (one or two of an alphabet) x elements per member; every order of adding members, supports and loads",
               f"{len(LAYOUTS)} structures, all single loads and pairs of the alphabet of each structure"),
        Family("generated", lambda: simple_cases(tier), run_simple, "storeys x bays x support type x with or without beams", "1..2 (3) storeys and bays"),
        Family("history", lambda: hist_cases(tier), run_hist, "every sequence of changes and analyses of one frame", "depth 3 (4) over 14 operations"),
        Family("select", lambda: sel_cases(tier), run_sel, "profile list x governing load case x starting profile", "all combinations"),
        Family("truss", lambda: truss_cases(tier), run_truss, "truss x loaded node x load direction x profiles, and a change of profiles", "4 trusses, every free node"),
    ]
