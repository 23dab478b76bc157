"""P22: truss generators (raami): topology, eccentricity models, equilibrium, joint design, histories."""
import importlib
import itertools
import math
from ..core import Family, canon
from ..ref import frame as ref
from . import p23

TOL = 1e-6


def mods():
    importlib.import_module("metku.framefem.framefem")
    return importlib.import_module("metku.raami.raami_plane_truss"), importlib.import_module("metku.sections.steel.RHS")


def truss(c):
    M, Q = mods()
    kw = {k: c[k] for k in ("h1", "h2", "slope") if k in c}
    t = M.SlopedTruss(L1=c["L1"], L2=c["L2"], dx1=c["dx1"], dx2=c["dx2"], **kw)
    kw = {}
    for k, n in (("top", "top_chord_profile"), ("bottom", "bottom_chord_profile"), ("brace", "brace_profile")):
        if k in c:
            kw[n] = Q.RHS(*c[k])
    if c.get("beams"):
        t.braces_as_beams = True
    for k in ("nel_chord", "nel_brace"):
        if k in c:
            kw[k] = c[k]
    t.generate_topology(c["topo"], c["ndiv"], first_diagonal_up=c["up"], edge_verticals=c["edge"], **kw)
    return t


def heights(c):
    """depth at the ends and at the ridge"""
    h1, h2, s = c.get("h1", 0), c.get("h2", 0), c.get("slope")
    rise = c["L1"] * math.tan(math.radians(s)) if s is not None else None
    if h1 and h2:
        return h1, h2
    return (h1, h1 + rise) if h1 else (h2 - rise, h2)


def outline(c):
    """-> function giving the height of the top chord at x, height of the bottom chord"""
    h1, h2 = heights(c)
    L1, S = c["L1"], c["L1"] + c["L2"]

    def top(x):
        return (h2 - h1) * (x / L1 if x <= L1 else (S - x) / (S - L1))
    return top, -h1, S


def judge_topology(c, t, ctx):
    w = str(c)
    top, yb, S = outline(c)
    T = [tuple(float(z) for z in n.coords) for n in t.top_nodes]
    B = [tuple(float(z) for z in n.coords) for n in t.bottom_nodes]
    tol = TOL * S
    ctx.step()
    for name, P, x0, x1, y in (("top", T, 0.0, S, top), ("bottom", B, c["dx1"], S - c["dx2"], lambda x: yb)):
        ctx.expect(all(abs(p[1] - y(p[0])) <= tol for p in P), name + "-line", f"{w}: {name} chord nodes off the outline: {[p for p in P if abs(p[1] - y(p[0])) > tol][:3]}")
        ctx.expect(abs(P[0][0] - x0) <= tol and abs(P[-1][0] - x1) <= tol, name + "-ends", f"{w}: {name} chord runs from {P[0]} to {P[-1]}, not {x0} to {x1}")
        ctx.expect(all(b[0] - a[0] > tol for a, b in zip(P, P[1:])), name + "-order", f"{w}: {name} chord nodes not in order {[round(p[0], 2) for p in P]}")
    ctx.expect(any(abs(p[0] - c["L1"]) <= tol for p in T), "ridge", f"{w}: no top chord node at the ridge")
    # members
    ends = {k: [tuple(tuple(float(z) for z in n.coords) for n in m.nodes) for m in ms] for k, ms in (("top", t.top_chord), ("bottom", t.bottom_chord), ("brace", t.braces.values()))}
    ctx.expect(ends["top"] == list(zip(T, T[1:])), "top-members", f"{w}: top chord members do not follow the nodes")
    ctx.expect(ends["bottom"] == list(zip(B, B[1:])), "bottom-members", f"{w}: bottom chord members do not follow the nodes")
    br = set()
    for p, q in ends["brace"]:
        a = (p, q) if p in T else (q, p)
        ok = a[0] in T and a[1] in B
        ctx.expect(ok, "brace-ends", f"{w}: brace {p} {q} does not join the chords")
        if ok:
            e = (T.index(a[0]), B.index(a[1]))
            ctx.expect(e not in br, "brace-duplicate", f"{w}: two braces between {a}")
            br.add(e)
    ctx.expect(len(t.members) == len(ends["top"]) + len(ends["bottom"]) + len(ends["brace"]) and len({id(m) for m in t.members.values()}) == len(t.members), "members", f"{w}: members of the truss")
    ctx.expect(len({n.node_id for n in t.nodes}) == len(t.nodes) == len(T) + len(B), "nodes", f"{w}: nodes of the truss")
    srt = sorted(br)
    ctx.expect(all(b1 <= b2 for (a1, b1), (a2, b2) in itertools.combinations(srt, 2) if a1 < a2), "brace-crossing", f"{w}: braces cross")
    # every node of a chord is braced, except ends closed by nothing
    deg_t, deg_b = [sum(1 for e in br if e[0] == i) for i in range(len(T))], [sum(1 for e in br if e[1] == i) for i in range(len(B))]
    free_t = {0, len(T) - 1} if c["dx1"] == 0 and c["up"] and not c["edge"] else set()
    free_b = {0, len(B) - 1} if c["dx1"] == 0 and not c["up"] and not c["edge"] else set()
    ctx.expect(all(d >= 1 for i, d in enumerate(deg_t) if i not in free_t) and all(d >= 1 for i, d in enumerate(deg_b) if i not in free_b), "unbraced", f"{w}: chord node without brace {deg_t} {deg_b}")
    # statically determinate web: as many braces as internal equilibrium needs
    m, n = len(T) + len(B) - 2 + len(br), len(T) + len(B)
    red = len(free_t) + len(free_b)
    ctx.expect(m == 2 * n - 3 - red, "determinate", f"{w}: {m} members for {n} nodes")
    # the pattern that was asked for
    dbl = {i: sum(1 for e in br if e[1] == i) for i in range(len(B))}
    if c["topo"] == "N":
        vert = [e for e in br if abs(T[e[0]][0] - B[e[1]][0]) <= tol]
        ctx.expect(len(vert) == (len(B) if c["dx1"] or c["edge"] else len(B) - 2), "verticals", f"{w}: {len(vert)} verticals for {len(B)} bottom nodes")
        ctx.expect(len(B) == (2 * c["ndiv"] - 1 if c["dx1"] else 2 * c["ndiv"] + 1), "divisions", f"{w}: {len(B)} bottom nodes")
    else:
        if c["dx1"]:
            nb = 2 * c["ndiv"]
        else:
            nb = 2 * c["ndiv"] + 2
        ctx.expect(len(B) == nb, "divisions", f"{w}: {len(B)} bottom nodes")
        vert = [e for e in br if abs(T[e[0]][0] - B[e[1]][0]) <= tol]
        inner = [e for e in vert if e[1] not in (0, len(B) - 1)] if not c["dx1"] else vert
        want = 0 if c["topo"] == "K" else (len(B) if c["dx1"] else len(B) - 2)
        ctx.expect(len(inner) == want, "verticals", f"{w}: {len(inner)} verticals at inner bottom nodes")
        if not c["dx1"]:
            edge = len(vert) - len(inner)
            ctx.expect(edge == (2 if c["edge"] else 0), "edge-verticals", f"{w}: {edge} verticals at the ends")
    if not c["dx1"]:
        first = [e for e in br if e not in vert and (e[0] == 0 or e[1] == 0)]
        ctx.expect(len(first) == 1 and (first[0][1] == 0) == bool(c["up"]), "first-diagonal", f"{w}: first diagonal {first} is not {'up' if c['up'] else 'down'}")
    # mirror symmetry
    if c["L1"] == c["L2"] and c["dx1"] == c["dx2"]:
        for name, P in (("top", T), ("bottom", B)):
            ctx.expect(len(P) == len(set(P)) and all(abs(p[0] + q[0] - S) <= tol and abs(p[1] - q[1]) <= tol for p, q in zip(P, P[::-1])), name + "-mirror", f"{w}: {name} chord is not symmetric {[round(p[0], 2) for p in P]}")
        ctx.expect({(len(T) - 1 - a, len(B) - 1 - b) for a, b in br} == br, "brace-mirror", f"{w}: braces are not symmetric")
    # equal panels of the bottom chord in both halves (half panels at the ends of K and KT trusses that start downwards)
    x = [p[0] for p in B]
    d = [b - a for a, b in zip(x, x[1:])]
    if c["dx1"] == 0 and not c["up"] and c["topo"] != "N":
        d = [2 * d[0]] + d[1:-1] + [2 * d[-1]]
    k = len(d) // 2
    mid = [] if len(d) % 2 == 0 else [d[k]]
    h1, h2 = d[:k], d[len(d) - k:]
    same = all(max(h) - min(h) <= tol for h in (h1, h2) if h) and all(abs(m - (h1[0] + h2[0]) / 2) <= tol for m in mid if h1)
    ctx.expect(same, "panels", f"{w}: panels of the bottom chord differ {[round(z, 2) for z in d]}")
    ctx.state(canon([T, B, srt]))
    return br


def topo_cases(tier):
    geo = [(0, 0), (1000.0, 1000.0), (800.0, 1300.0)]
    for topo, ndiv, up, edge, (dx1, dx2), (L1, L2), h in itertools.product(("K", "N", "KT"), range(1, 7 if tier == "quick" else 13), (False, True), (False, True), geo, ((10000.0, 10000.0), (8000.0, 8000.0), (9000.0, 12000.0), (12000.0, 9000.0)),
                                                                  ({"h1": 1500.0, "h2": 2000.0}, {"h1": 1200.0, "slope": 3.0}, {"h2": 2200.0, "slope": 4.0}, {"h1": 1500.0, "h2": 1500.0})):
        if ndiv == 1 and (topo == "N" and dx1 or topo != "N" and not dx1 and not up):
            continue
        yield dict(topo=topo, ndiv=ndiv, up=up, edge=edge, dx1=dx1, dx2=dx2, L1=L1, L2=L2, **h)


def run_topo(c, ctx):
    t = truss(c)
    judge_topology(c, t, ctx)
    want = heights(c)
    ctx.eq([float(t.Hleft), float(t.Hmid), float(t.Hright)], [want[0], want[1], want[0]], "heights", f"{c}: heights", 1e-9, 1e-9)
    ctx.eq([float(t.span), float(t.slope)], [c["L1"] + c["L2"], math.degrees(math.atan((want[1] - want[0]) / c["L1"]))], "slope", f"{c}: span and slope", 1e-9, 1e-9)


# ------------------------------------------------------------------ geometry of the joints
def unit(p, q):
    L = math.hypot(q[0] - p[0], q[1] - p[1])
    return ((q[0] - p[0]) / L, (q[1] - p[1]) / L)


def cross_point(p, v, q, u):
    D = v[0] * -u[1] + u[0] * v[1]
    t = ((q[0] - p[0]) * -u[1] + u[0] * (q[1] - p[1])) / D
    return (p[0] + t * v[0], p[1] + t * v[1])


def project(p, v, x):
    t = (x[0] - p[0]) * v[0] + (x[1] - p[1]) * v[1]
    return (p[0] + t * v[0], p[1] + t * v[1])


class Model:
    """independent geometry of a truss with eccentric joints, and its frame models"""

    def __init__(self, c, t, locs=None):
        self.c = c
        T, B = t.top_nodes, t.bottom_nodes
        self.P = {("T", i): tuple(map(float, n.coords)) for i, n in enumerate(T)}
        self.P.update({("B", i): tuple(map(float, n.coords)) for i, n in enumerate(B)})
        self.n = {"T": len(T), "B": len(B)}
        ids = {id(n): ("T", i) for i, n in enumerate(T)}
        ids.update({id(n): ("B", i) for i, n in enumerate(B)})
        self.ids = ids
        self.braces = []
        for m in t.braces.values():
            a, b = sorted((ids[id(n)] for n in m.nodes), reverse=True)
            self.braces.append((a, b, m))
        self.at = {k: [i for i, b in enumerate(self.braces) if k in b[:2]] for k in self.P}
        self.prof = {"T": c["top"], "B": c["bottom"], "W": c["brace"]}
        self.loc = {k: [0.0, 0.25 * self.prof[k[0]][0]] for k in self.P if len(self.at[k]) == 2}
        self.loc.update(locs or {})

    def kind(self, k):
        return {0: None, 1: "Y", 2: "K", 3: "KT"}[len(self.at[k])]

    def chords(self, k):
        """directions of the chord members left and right of a node, None if there is none"""
        s, i = k
        return [unit(self.P[(s, i - 1)], self.P[k]) if i > 0 else None, unit(self.P[k], self.P[(s, i + 1)]) if i + 1 < self.n[s] else None]

    def ridge(self, k):
        a, b = self.chords(k)
        return a is not None and b is not None and abs(a[0] * b[1] - a[1] * b[0]) > 1e-6

    def out(self, k, v):
        """normal of the chord pointing away from the braces"""
        return (-v[1], v[0]) if k[0] == "T" else (v[1], -v[0])

    def xp(self, k):
        p = self.P[k]
        if self.kind(k) != "K":
            return p
        x, y = self.loc[k]
        if self.ridge(k):
            return (p[0], p[1] + y)
        v = [d for d in self.chords(k) if d][0]
        n = self.out(k, v)
        return (p[0] + x * v[0] + y * n[0], p[1] + x * v[1] + y * n[1])

    def line(self, b):
        return unit(self.xp(self.braces[b][0]), self.xp(self.braces[b][1]))

    def side(self, k):
        """braces of a K joint from left to right"""
        far = {b: self.P[[e for e in self.braces[b][:2] if e != k][0]][0] for b in self.at[k]}
        return sorted(self.at[k], key=lambda b: far[b])

    def face(self, k):
        """brace/chord face points and their projections on the chord axis, left and right"""
        p, h0, r = self.P[k], self.prof[k[0]][0], []
        ch = self.chords(k)
        for s, b in enumerate(self.side(k)):
            v = ch[s] or ch[1 - s]
            n = self.out(k, v)
            q = (p[0] - h0 / 2 * n[0], p[1] - h0 / 2 * n[1])
            f = cross_point(self.xp(k), self.line(b), q, v)
            r.append((b, f, project(p, v, f)))
        return r

    def angle(self, k, b):
        s = self.side(k).index(b) if self.kind(k) == "K" else 0
        ch = self.chords(k)
        v = ch[s] or ch[1 - s]
        u = self.line(b)
        a = math.degrees(math.acos(min(1.0, abs(u[0] * v[0] + u[1] * v[1]))))
        return a

    def gap(self, k):
        """clear distance between the toes of the braces along the chord face"""
        (b1, f1, _), (b2, f2, _) = self.face(k)
        d = math.hypot(f2[0] - f1[0], f2[1] - f1[1])
        v = [x for x in self.chords(k) if x][0]
        d = math.copysign(d, (f2[0] - f1[0]) * v[0] + (f2[1] - f1[1]) * v[1])
        h = self.prof["W"][0]
        return d - sum(h / 2 / math.sin(math.radians(self.angle(k, b))) for b in (b1, b2))

    def frame(self, model, t):
        """model for the reference solver; spans of every chord member and brace"""
        nodes, els, sup = [], [], []
        sec = {}
        for s, mem in (("T", t.top_chord[0]), ("B", t.bottom_chord[0]), ("W", next(iter(t.braces.values())))):
            sec[s] = (float(mem.cross_section.A), float(mem.cross_section.I[0]))
        Q = importlib.import_module("metku.sections.steel.ISection").IPE(500)
        sec["E"] = (float(Q.A), float(Q.I[0]))

        def node(p):
            for i, q in enumerate(nodes):
                if abs(q[0] - p[0]) < 1e-6 and abs(q[1] - p[1]) < 1e-6:
                    return i
            nodes.append(list(p))
            return len(nodes) - 1

        def el(t_, a, b, s):
            if a == b:
                return None
            els.append({"t": t_, "n": [a, b], "E": 210e3, "A": sec[s][0], "I": sec[s][1], "rel": []})
            return len(els) - 1
        left, right, brace_end, base = {}, {}, {}, {}
        extra = []
        for k, p in self.P.items():
            kd = self.kind(k)
            if model == "no_eccentricity" or kd != "K":
                n = node(p)
                left[k] = right[k] = base[k] = n
                for b in self.at[k]:
                    brace_end[(b, k)] = n
            elif model == "en1993":
                v = [x for x in self.chords(k) if x][0]
                n = node(p if self.ridge(k) else project(p, v, self.xp(k)))
                x = node(self.xp(k))
                extra.append(("beam", n, x, "E"))
                left[k] = right[k] = base[k] = n
                for b in self.at[k]:
                    brace_end[(b, k)] = x
            else:
                fs = self.face(k)
                ns = []
                for b, f, pc in fs:
                    x, n = node(f), node(pc)
                    brace_end[(b, k)] = x
                    extra.append(("beam", x, n, "E"))
                    ns.append(n)
                left[k], right[k] = ns
                m = self.ridge(k) or self.supported(k) or k in [tuple(z) for z, _ in self.c.get("points", [])]
                if m:
                    mid = node(p)
                    base[k] = mid
                    extra.append(("gap", ns[0], mid, k))
                    extra.append(("gap", mid, ns[1], k))
                else:
                    extra.append(("gap", ns[0], ns[1], k))
        span = []
        for s in "TB":
            for i in range(self.n[s] - 1):
                a, b = (s, i), (s, i + 1)
                span.append((s, i, el("beam", right[a], left[b], s)))
        bs = []
        for i, (a, b, m) in enumerate(self.braces):
            bs.append(el("rod", brace_end[(i, a)], brace_end[(i, b)], "W"))
        gaps = {}
        for t_, a, b, s in extra:
            if t_ == "gap":
                gaps.setdefault(s, []).append(el("beam", a, b, s[0]))
            else:
                el("beam", a, b, s)
        self.base = base
        for k, d in self.supports():
            sup.append([1, base[k], d])
        return {"nodes": nodes, "els": els, "supp": sup, "loads": []}, span, bs, gaps

    def supports(self):
        a = ("T", 0) if self.c["dx1"] > 0 else ("B", 0)
        b = ("T", self.n["T"] - 1) if self.c["dx2"] > 0 else ("B", self.n["B"] - 1)
        return [(a, [0, 1]), (b, [1])]

    def supported(self, k):
        return k in [s for s, _ in self.supports()]


DIMS = dict(top=[160.0, 160.0, 6.0], bottom=[140.0, 140.0, 5.0], brace=[90.0, 90.0, 4.0])


def loads_of(c):
    """[(chord, q, type)]"""
    return c.get("loads", [["top", -20.0, "live"]])


def assemble(c, t, model, locs=None):
    M = Model(c, t, locs)
    m, span, bs, gaps = M.frame(model, t)
    for chord, q, _ in loads_of(c):
        s = "T" if chord == "top" else "B"
        ids = [e for z, i, e in span if z == s] + [e for k, es in gaps.items() if k[0] == s for e in es]
        m["loads"] += [{"k": "L", "sid": 2, "el": e, "q": [q, q], "dir": "y", "cs": "global", "f": 1.0} for e in ids if e is not None]
    for k, P in c.get("points", []):
        m["loads"].append({"k": "P", "sid": 2, "n": M.base[tuple(k)], "v": [0.0, P, 0.0], "f": 1.0})
    U, F = ref.solve(m, 1, 2)
    return M, m, span, bs, gaps, U, F


def judge_forces(c, t, model, ctx, lid=2, locs=None, key="forces", where=""):
    w = where or f"{c} {model}"
    try:
        M, m, span, bs, gaps, U, F = assemble(c, t, model, locs)
    except ref.Singular:
        ctx.undefined += 1
        return None
    ctx.step()
    big = max(abs(f["fx"][0]) for f in F)
    lever = 1000.0
    ok = True
    for (a, b, mem), e in zip(M.braces, bs):
        g, r = float(mem.NEd[lid]), F[e]["fx"][0]
        ok &= ctx.expect(abs(g - r) <= 1e-5 * big, key + "-brace", f"{w}: brace {a}-{b} force {g:.1f}, reference {r:.1f}")
        if not ok:
            return None
    for s, i, e in span:
        mem = (t.top_chord if s == "T" else t.bottom_chord)[i]
        q = mem.nodal_forces[lid]
        for z, k, sc in (("N", "fx", big), ("Vz", "fz", big), ("My", "my", big * lever)):
            g = [float(q[z][0]), float(q[z][-1])]
            r = list(F[e][k])
            ok &= ctx.expect(all(abs(x - y) <= (1e-5 if z == "N" else 2e-4) * sc for x, y in zip(g, r)), f"{key}-chord-{z}", f"{w}: chord member {s}{i} {z} {g}, reference {r}")
    ctx.state(canon([round(f["fx"][0] / big, 6) for f in F]))
    return M, m, F, bs, span, gaps


def analyse(c, t, model, lid=2):
    t.generate_fem(model)
    t.structural_analysis(load_id=lid, support_method=c.get("method", "ZERO"), design=False)


MODELS = ("no_eccentricity", "en1993", "ecc_elements")
LOADS = ([["top", -20.0, "live"]], [["bottom", -5.0, "live"]], [["top", -20.0, "live"], ["top", -6.0, "dead"], ["bottom", 3.0, "wind"]])


def fe_cases(tier):
    for topo, ndiv, up, edge, (dx1, dx2), (L1, L2), (h1, h2), model, ld in itertools.product(("K", "N", "KT"), (2, 3) if tier == "quick" else (2, 3, 4, 5), (False, True), (False, True), ((0, 0), (1000.0, 1000.0), (800.0, 1300.0)), ((10000.0, 10000.0), (9000.0, 12000.0)),
                                                                                           ((1500.0, 2000.0), (1500.0, 1500.0)), MODELS, LOADS):
        if dx1 and (up or not edge):
            continue
        yield dict(topo=topo, ndiv=ndiv, up=up, edge=edge, dx1=dx1, dx2=dx2, L1=L1, L2=L2, h1=h1, h2=h2, model=model, loads=ld, **DIMS)


def run_fe(c, ctx):
    for beams, nel in ((False, (4, 1)), (True, (1, 1)), (True, (2, 3))):
        k = dict(c, beams=beams, nel_chord=nel[0], nel_brace=nel[1])
        t = ready(k)
        analyse(k, t, c["model"])
        judge_forces(k, t, c["model"], ctx)


def ready(c):
    t = truss(c)
    t.generate_supports()
    t.generate_joints()
    for chord, q, lt in loads_of(c):
        t.generate_uniform_load(q, chord, 2, lt)
    return t


# ------------------------------------------------------------------ joints
def sections_of(c):
    return {"T": c["top"], "B": c["bottom"], "W": c["brace"]}


def judge_joints(c, t, model, ctx, lid=2, locs=None, where="", design=True, key="joint"):
    """geometry and design of every joint; forces of the members are those of the analysis (judged separately)"""
    w = where or f"{c} {model}"
    M = Model(c, t, locs)
    gapV = None
    if design and model == "ecc_elements":
        try:
            _, m, span, bs, gaps, U, F = assemble(c, t, model, locs)
        except ref.Singular:
            return
        gapV = {k: max(abs(v) for e in es if e is not None for v in F[e]["fz"]) for k, es in gaps.items()}
    mem = {id(m): i for i, (a, b, m) in enumerate(M.braces)}
    sec = sections_of(c)
    kinds = {"TubularYJoint": "Y", "TubularKGapJoint": "K", "TubularKTGapJoint": "KT"}
    got = {M.ids[id(j.node)]: j for j in t.joints.values()}
    ctx.expect(len(got) == len(t.joints) and {k: kinds[type(j).__name__] for k, j in got.items()} == {k: M.kind(k) for k in M.P if M.kind(k)}, key + "-kinds", f"{w}: joints {[(k, type(j).__name__) for k, j in got.items()]}")
    for k, j in got.items():
        kd = M.kind(k)
        if kd == "KT":
            continue
        ctx.step()
        here = f"{w} joint {k}"
        ids = [mem[id(b)] for b in j.braces]
        ctx.expect(sorted(ids) == sorted(M.at[k]), key + "-braces", f"{here}: braces")
        want = [M.angle(k, b) for b in ids]
        g = [float(a) for a in (j.angles if kd == "K" else [j.angle])]
        ctx.eq(g, want, key + "-angle", f"{here}: angles between braces and chord", 1e-7, 1e-7)
        gap = 0.0
        if kd == "K":
            ctx.eq(float(j.eccentricity()), M.loc[k][1], key + "-eccentricity", f"{here}: eccentricity", 1e-9, 1e-9)
            ctx.eq([float(z) for z in j.xp_coord], list(M.xp(k)), key + "-xp", f"{here}: intersection point of braces", 1e-9, 1e-6)
            gap = float(j.gap)
            if not M.ridge(k):
                ctx.eq(gap, M.gap(k), key + "-gap", f"{here}: gap", 1e-7, 1e-5)
        if not design:
            continue
        cm = [x for x in (t.top_chord if k[0] == "T" else t.bottom_chord) if any(id(n) == id(j.node) for n in x.nodes)]
        N0s = []
        for x in cm:
            N0s.append(max((float(z) for z in x.nodal_forces[lid]["N"]), key=abs))
        N = [float(M.braces[b][2].nodal_forces[lid]["N"][0]) for b in ids]
        best = max(N0s, key=abs)
        cand = [best] + [z for z in N0s if z * best < 0 or abs(abs(z) - abs(best)) < 1e-6 * abs(best)]
        H0, B0, T0 = sec[k[0]]
        h, b, tt = sec["W"]
        fy = c.get("fy", "S355")
        tp = c.get("plate", 0)
        j.r = c.get("r", 0)
        if kd == "K":
            j.chord_face_plate["tp"] = tp
            r = [float(z) for z in j.design(lid, verb=False)]
        else:
            r = [float(j.design(lid))]
        alts = []
        for N0 in cand:
            S = dict(kind=kd, chord=[H0, B0, T0], fy0=fy, braces=[[h, b, tt]] * len(ids), fy=[c.get("fyb", fy)] * len(ids), angles=want, gap=gap, N0=N0, M0=0.0, N=N, r=c.get("r", 0), tp=tp)
            if kd == "Y":
                alts.append([p23.ref_y(S)["u"]])
                continue
            K = p23.ref_k(S)
            rd = [min(z) for z in zip(K["cff"], K["cs"], K["bf"])]
            if (h + b) / 2 / B0 <= 1 - 2 * T0 / B0:
                rd = [min(z) for z in zip(rd, K["ps"])]
            V = gapV[k] if gapV else max(abs(f) * math.sin(math.radians(a)) for f, a in zip(N, want))
            fy0 = p23.FY[fy]
            A, W, Av = p23.section(H0, B0, T0, fy0)
            Ae = (2 * H0 + math.sqrt(1 / (1 + 4 * gap ** 2 / 3 / T0 ** 2)) * B0) * T0
            Vp = Av * fy0 / math.sqrt(3)
            n = 0.0 if V > Vp else p23.reduction(fy0, S["r"]) * fy0 * (A - Ae + Ae * math.sqrt(1 - (V / Vp) ** 2))
            alts.append([abs(f) / x if x > 0 else math.inf for f, x in zip(N, rd)] + [abs(N0) / n if n > 0 else math.inf])
            near = abs(V / Vp - 1) < 1e-2

        def close(x, y, rel):
            return x == y or abs(x - y) <= rel * max(abs(x), abs(y)) + 1e-9
        if any(z is None for a in alts for z in a):
            ctx.undefined += 1
            continue
        ok = any(len(a) == len(r) and all(close(x, y, 1e-6 if i < 2 or not gapV else 2e-3) for i, (x, y) in enumerate(zip(r, a))) for a in alts)
        if not ok and kd == "K" and near:
            ctx.undefined += 1
            continue
        ctx.expect(ok, key + "-design-" + kd, f"{here}: utilization {[round(z, 4) for z in r]}, reference {[[round(z, 4) for z in a] for a in alts]}")
        ctx.expect(close(float(j.utilization[lid]), max(r), 1e-12), key + "-utilization", f"{here}: stored utilization {j.utilization[lid]}, largest {max(r)}")
        ctx.state(canon([k, r]))


SIZES = (dict(DIMS), dict(top=[140.0, 140.0, 5.0], bottom=[120.0, 120.0, 5.0], brace=[110.0, 110.0, 4.0]), dict(top=[120.0, 120.0, 8.0], bottom=[100.0, 100.0, 4.0], brace=[100.0, 100.0, 5.0], fy="S420"),
         dict(top=[200.0, 120.0, 6.0], bottom=[150.0, 100.0, 5.0], brace=[100.0, 60.0, 4.0], r=0.75), dict(DIMS, plate=12.0, fy="S500"),
         dict(top=[200.0, 200.0, 8.0], bottom=[180.0, 180.0, 6.0], brace=[150.0, 150.0, 3.0], fyb="S700"))


def joint_cases(tier):
    for topo, ndiv, up, edge, (dx1, dx2), (L1, L2), (h1, h2), model, sz in itertools.product(("K", "N"), (2, 3) if tier == "quick" else (2, 3, 4, 6), (False, True), (False, True), ((0, 0), (1000.0, 1000.0), (800.0, 1300.0)), ((10000.0, 10000.0), (9000.0, 12000.0)),
                                                                                         ((1500.0, 2000.0), (1500.0, 1500.0)), MODELS, SIZES):
        if dx1 and (up or not edge):
            continue
        yield dict(topo=topo, ndiv=ndiv, up=up, edge=edge, dx1=dx1, dx2=dx2, L1=L1, L2=L2, h1=h1, h2=h2, model=model, **sz)


def run_joints(c, ctx):
    for ld in (LOADS[0], [["top", 9.0, "wind"]], [["bottom", -60.0, "live"]]):
        k = dict(c, loads=ld, nel_chord=2)
        t = ready(k)
        set_fy(t, k)
        analyse(k, t, c["model"])
        judge_joints(k, t, c["model"], ctx)


def set_fy(t, c):
    if "fy" in c:
        for m in t.members.values():
            m.cross_section.material = c["fy"]
    if "fyb" in c:
        for m in t.braces.values():
            m.cross_section.material = c["fyb"]


# ------------------------------------------------------------------ histories
PROF = {"top_chord_profile": ("top", [180.0, 180.0, 8.0]), "bottom_chord_profile": ("bottom", [160.0, 160.0, 6.0])}


def ops(M, sym, tier):
    """single edits of a truss"""
    out = [["model", m] for m in MODELS]
    ks = [k for k in M.P if M.kind(k) == "K"]
    ridge = [k for k in ks if M.ridge(k)]
    side = [k for k in ks if not M.ridge(k)]
    pick = ridge[:1] + side[:1] + [k for k in side if k[0] == "B"][:1] + ([side[-1]] if side else [])
    if tier != "quick":
        pick = ks
    for k in dict.fromkeys(pick):
        out += [["y", list(k), v] for v in (0.0, -20.0, 70.0)]
        if k not in ridge:
            out += [["x", list(k), v] for v in (25.0, -15.0)]
    out += [["prof", p] for p in PROF] + [["brace"], ["load", "top", -7.0], ["load", "bottom", 4.0], ["point", ["T", 1], -50e3], ["point", ["B", 0], -10e3], ["clear"]]
    return out


def mirror(M, k):
    return (k[0], M.n[k[0]] - 1 - k[1])


def history_cases(tier):
    base = [dict(topo="K", ndiv=2, up=False, edge=True, dx1=1000.0, dx2=1000.0, L1=8000.0, L2=8000.0, h1=1200.0, h2=1700.0),
            dict(topo="N", ndiv=2, up=True, edge=True, dx1=0, dx2=0, L1=8000.0, L2=8000.0, h1=1200.0, h2=1200.0),
            dict(topo="K", ndiv=1, up=True, edge=True, dx1=0, dx2=0, L1=6000.0, L2=8000.0, h1=1200.0, h2=1700.0)]
    if tier != "quick":
        base += [dict(topo="KT", ndiv=2, up=False, edge=True, dx1=800.0, dx2=1300.0, L1=8000.0, L2=8000.0, h1=1200.0, h2=1700.0)]
    for b in base:
        for sym in (False, True):
            if sym and b["L1"] != b["L2"]:
                continue
            c = dict(b, sym=sym, loads=[["top", -20.0, "live"]], nel_chord=2, **DIMS)
            t = ready(c)
            O = ops(Model(c, t), sym, tier)
            d = 2 if tier == "quick" else 3
            for first in MODELS[1:] if tier == "quick" else MODELS:
                for h in itertools.chain.from_iterable(itertools.product(O, repeat=n) for n in range(1, d + 1)):
                    if len(h) == 3 and (h[0][0] == "model" or h[2][0] == "model" or h[0] > h[1]):
                        continue
                    yield dict(c, first=first, ops=[list(o) for o in h])


def run_history(c, ctx):
    L = importlib.import_module("metku.raami.frame_loads")
    _, Q = mods()
    k = {z: v for z, v in c.items() if z not in ("ops", "first", "sym")}
    k["loads"] = list(c["loads"])
    k["points"] = []
    t = ready(k)
    M = Model(k, t)
    if c["sym"]:
        t.symmetry()
    locs = {z: list(v) for z, v in M.loc.items()}
    model = c["first"]
    analyse(k, t, model)
    joint = {M.ids[id(j.node)]: j for j in t.joints.values()}
    for o in c["ops"]:
        if o[0] == "model":
            model = o[1]
        elif o[0] in "xy":
            z = tuple(o[1])
            i = 0 if o[0] == "x" else 1
            setattr(joint[z], "xloc" if i == 0 else "yloc", o[2])
            locs[z][i] = o[2]
            if c["sym"] and mirror(M, z) != z:
                locs[mirror(M, z)][i] = -o[2] if i == 0 else o[2]
        elif o[0] == "prof":
            n, d = PROF[o[1]]
            k[n] = d
            setattr(t, o[1], Q.RHS(*d))
        elif o[0] == "brace":
            k["brace"] = [100.0, 100.0, 5.0]
            for b in t.braces.values():
                b.cross_section = Q.RHS(*k["brace"])
        elif o[0] == "load":
            k["loads"].append([o[1], o[2], f"x{len(k['loads'])}"])
            t.generate_uniform_load(o[2], o[1], 2, k["loads"][-1][2])
        elif o[0] == "point":
            z = tuple(o[1])
            n = (t.top_nodes if z[0] == "T" else t.bottom_nodes)[z[1]]
            t.add(L.PointLoad(n, [0.0, o[2], 0.0], load_id=2))
            k["points"].append([z, o[2]])
        elif o[0] == "clear":
            t.clear_fem()
    analyse(k, t, model)
    w = f"{c}"
    if judge_forces(k, t, model, ctx, locs=locs, key="history", where=w):
        judge_joints(k, t, model, ctx, locs=locs, key="history-joint", where=w)


# ------------------------------------------------------------------ zones of load, weight
def zone_cases(tier):
    rel = (0.0, 0.03, 0.1, 0.125, 0.2, 0.35, 0.5, 0.61, 0.8, 0.97, 1.0)
    for topo, ndiv, (L1, L2), nel in itertools.product(("K", "N"), (1, 2, 4), ((8000.0, 8000.0), (9000.0, 12000.0)), (1, 4)):
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for z in itertools.combinations(rel, n):
                for q in ((-3.0, -1.0, 2.0, -0.5, 4.0)[:n + 1], (2.0, -4.0, 1.0, 3.0, -1.0)[:n + 1]):
                    yield dict(topo=topo, ndiv=ndiv, up=True, edge=True, dx1=0, dx2=0, L1=L1, L2=L2, h1=1200.0, h2=1700.0, nel_chord=nel, zones=list(z), q=list(q), **DIMS)


def run_zones(c, ctx):
    t = truss(c)
    t.generate_supports()
    S = c["L1"] + c["L2"]
    xz = [z * S for z in c["zones"]]
    t.generate_piecewise_uniform_load(list(c["q"]), xz, 2, "wind")
    t.generate_fem()
    got = {}
    for ld in t.fem.loads:
        ctx.expect(tuple(ld.xloc) == (0.0, 1.0) and float(ld.qval[0]) == float(ld.qval[1]) and ld.dir == "y" and ld.coords == "global" and ld.sid == 2, "zone-load", f"{c}: load {ld.__dict__}")
        got[id(ld.elem)] = got.get(id(ld.elem), 0.0) + float(ld.qval[0])
    n = 0
    for m in t.top_chord:
        for e in m.fem_elements:
            ctx.step()
            n += 1
            a, b = sorted(float(z.x) for z in e.nodes)
            g = got.get(id(e), 0.0)
            inside = [z for z in xz if a + 1e-3 < z < b - 1e-3]
            k = sum(1 for z in xz if z <= a + 1e-3)
            if len(inside) > 1:
                ctx.undefined += 1
                continue
            ok = any(abs(g - q) < 1e-9 for q in c["q"][k:k + 1 + len(inside)])
            ctx.expect(ok, "zone-value", f"{c}: top chord element {a:.0f}..{b:.0f} has load {g}, zones {c['q'][k:k + 1 + len(inside)]}")
    ctx.expect(len(got) == n, "zone-elements", f"{c}: loads on {len(got)} elements, top chord has {n}")
    ctx.state(canon([c["zones"], c["q"], list(got.values())]))


def weight_cases(tier):
    for topo, ndiv, (dx1, dx2), sz in itertools.product(("K", "N", "KT"), (2, 3), ((0, 0), (800.0, 1300.0)), SIZES[:4]):
        yield dict(topo=topo, ndiv=ndiv, up=False, edge=True, dx1=dx1, dx2=dx2, L1=9000.0, L2=12000.0, h1=1200.0, h2=1700.0, **sz)


def run_weight(c, ctx):
    t = ready(c)
    set_fy(t, c)
    M = Model(c, t)
    rho = 7850e-9
    A = {k: p23.section(*d, 355)[0] for k, d in sections_of(c).items()}

    def L(a, b):
        return math.hypot(M.P[b][0] - M.P[a][0], M.P[b][1] - M.P[a][1])
    want = [sum(L((s, i), (s, i + 1)) for i in range(M.n[s] - 1)) * A[s] * rho for s in "TB"] + [sum(L(a, b) for a, b, _ in M.braces) * A["W"] * rho]
    ctx.step()
    ctx.eq([float(z) for z in t.weight_detailed()], want, "weight-parts", f"{c}: weights of chords and braces", 1e-3, 1e-3)
    ctx.eq(float(t.weight()), sum(want), "weight", f"{c}: weight", 1e-3, 1e-3)
    C = float(t.cost())
    parts = {}
    for x in list(t.members.values()) + list(t.joints.values()):
        for k, v in x.costs.items():
            parts[k] = parts.get(k, 0.0) + float(v)
    ctx.expect(abs(C - sum(parts.values())) <= 1e-9 * C and all(abs(float(t.costs.get(k, 0.0)) - v) <= 1e-9 * C for k, v in parts.items()), "cost", f"{c}: cost {C}, parts {parts}, stored {t.costs}")
    # each brace joint weld: circumference of the brace on the chord, full strength throat
    ctx.state(canon([want, C]))


# ------------------------------------------------------------------ Vierendeel trusses
VPROF = (dict(top=[160.0, 160.0, 5.0], bottom=[140.0, 140.0, 5.0], brace=[90.0, 90.0, 5.0]), dict(top=[200.0, 120.0, 8.0], bottom=[100.0, 100.0, 4.0], brace=[140.0, 120.0, 6.0]))
VLOAD = ([["u", -10.0, "top", "live"]], [["u", -4.0, "bottom", "live"], ["u", 6.0, "top", "wind"]], [["p", [-5e3, -2e4], "top", "live"]], [["p", [-7e3, 3e4], "bottom", "live"], ["u", -2.0, "top", "dead"]])


def vierendeel(c):
    M, Q = mods()
    V = importlib.import_module("metku.raami.raami_vierendeel")
    kw = {k: c[k] for k in ("nel_chord", "nel_brace") if k in c}
    t = V.VierendeelTruss(origin=tuple(c["origin"]), span=c["span"], height=c["height"], panels=c["panels"])
    t.generate_topology(top_chord_profile=Q.RHS(*c["top"]), bottom_chord_profile=Q.RHS(*c["bottom"]), brace_profile=Q.RHS(*c["brace"]), **kw)
    t.generate_supports()
    t.generate_joints()
    for ld in c["loads"]:
        vload(t, ld)
    return t


def vload(t, ld):
    if ld[0] == "u":
        t.generate_uniform_load(ld[1], ld[2], 2, ld[3])
    else:
        t.generate_chord_point_load(ld[1], ld[2], 2, ld[3])


def judge_vierendeel(c, t, ctx, where):
    n, dx = c["panels"], c["span"] / c["panels"]
    x0, y0 = c["origin"]
    P = {(s, i): (x0 + i * dx, y0 + (c["height"] if s == "T" else 0.0)) for s in "TB" for i in range(n + 1)}
    want = {("T", i): (("T", i), ("T", i + 1)) for i in range(n)}
    want.update({("B", i): (("B", i), ("B", i + 1)) for i in range(n)})
    want.update({("W", i): (("T", i), ("B", i)) for i in range(n + 1)})
    got = {("T", i): m for i, m in enumerate(t.top_chord)}
    got.update({("B", i): m for i, m in enumerate(t.bottom_chord)})
    got.update({("W", i): m for i, m in enumerate(t.braces.values())})
    ok = ctx.expect(set(got) == set(want) and len(t.members) == len(want) and all(abs(float(g) - w) < 1e-6 for k, e in want.items() for q, r in zip(got[k].nodes, e) for g, w in zip(q.coords, P[r])), "vierendeel-topology", f"{where}: members {[(k, [tuple(map(float, q.coords)) for q in m.nodes]) for k, m in got.items()]}")
    if not ok:
        return
    sec = {s: (float(m.cross_section.A), float(m.cross_section.I[0])) for s, m in (("T", t.top_chord[0]), ("B", t.bottom_chord[0]), ("W", got[("W", 0)]))}
    for s, d in zip("TBW", (c["top"], c["bottom"], c["brace"])):
        ctx.eq(sec[s][0], p23.section(*d, 355)[0], "vierendeel-section", f"{where}: area of {s}", 1e-9)
    keys = list(P)
    els, order = [], list(want)
    for k in order:
        a, b = want[k]
        els.append({"t": "beam", "n": [keys.index(a), keys.index(b)], "E": 210e3, "A": sec[k[0]][0], "I": sec[k[0]][1], "rel": []})
    m = {"nodes": [list(P[k]) for k in keys], "els": els, "supp": [[1, keys.index(("B", 0)), [0, 1]], [1, keys.index(("B", n)), [1]]], "loads": []}
    for kind, v, chord, _ in c["loads"]:
        s = "T" if chord == "top" else "B"
        if kind == "u":
            m["loads"] += [{"k": "L", "sid": 2, "el": order.index((s, i)), "q": [v, v], "dir": "y", "cs": "global", "f": 1.0} for i in range(n)]
        else:
            for i in range(n + 1):
                if s == "B" and i in (0, n):
                    continue
                m["loads"].append({"k": "P", "sid": 2, "n": keys.index((s, i)), "v": [0.0, v[0] if i in (0, n) else v[1], 0.0], "f": 1.0})
    U, F = ref.solve(m, 1, 2)
    ctx.step()
    bigN = max(max(abs(f["fx"][0]), abs(f["fz"][0])) for f in F)
    bigM = max(abs(z) for f in F for z in f["my"]) + bigN
    for k, f in zip(order, F):
        q = got[k].nodal_forces[2]
        for z, r, sc in (("N", "fx", bigN), ("Vz", "fz", bigN), ("My", "my", bigM)):
            g = [float(q[z][0]), float(q[z][-1])]
            ctx.expect(all(abs(a - b) <= 1e-4 * sc for a, b in zip(g, f[r])), "vierendeel-forces", f"{where}: member {k} {z} {g}, reference {list(f[r])}")
    ctx.state(canon([f["fx"][0] / bigN for f in F]))
    rho = 7850e-9
    w = [c["span"] * sec["T"][0] * rho, c["span"] * sec["B"][0] * rho, (n + 1) * c["height"] * sec["W"][0] * rho]
    ctx.eq([float(z) for z in t.weight_detailed()] + [float(t.weight())], w + [sum(w)], "vierendeel-weight", f"{where}: weight", 1e-3, 1e-3)
    at = {(s, i): [("W", i)] for s in "TB" for i in range(n + 1)}
    ids = {id(q): (s, i) for s, ns in (("T", t.top_nodes), ("B", t.bottom_nodes)) for i, q in enumerate(ns)}
    js = {ids[id(j.node)]: j for j in t.joints.values()}
    ctx.expect(set(js) == set(at) and len(t.joints) == len(at) and all(j.braces == [got[("W", k[1])]] for k, j in js.items()), "vierendeel-joints", f"{where}: joints {sorted(js)}")
    for k, j in js.items():
        ctx.eq(float(j.angle), 90.0, "vierendeel-angle", f"{where}: angle at {k}", 1e-9)
        N = F[order.index(("W", k[1]))]["fx"][0]
        if abs(N) < 1e-3 * bigN:
            continue
        d = c["top" if k[0] == "T" else "bottom"]
        ends = [F[order.index((k[0], i))]["fx"] for i in (k[1] - 1, k[1]) if 0 <= i < n]
        N0 = [max(e, key=abs) for e in ends]
        best = max(N0, key=abs)
        cand = [best] + [z for z in N0 if z * best < 0 or abs(abs(z) - abs(best)) < 1e-3 * abs(best)]
        cand += [abs(z) for z in cand] if abs(best) < 1e-3 * bigN else []
        r = float(j.design(2))
        alts = [p23.ref_y(dict(kind="Y", chord=d, fy0="S355", braces=[c["brace"]], fy=["S355"], angles=[90.0], gap=0.0, N0=z, M0=0.0, N=[N], r=0, tp=0))["u"] for z in cand]
        if any(a is None for a in alts):
            ctx.undefined += 1
            continue
        ctx.expect(any(r == a or abs(r - a) <= 1e-3 * max(abs(a), abs(r)) for a in alts), "vierendeel-joint-design", f"{where}: joint {k} utilization {r}, reference {alts}")


def vier_cases(tier):
    for n, (sp, h), org, pf, ld, model, nel in itertools.product((1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 7, 10), ((12000, 1500), (7000.0, 2500.0)), ((0, 0), (1500.0, -700.0)), VPROF, VLOAD, ("no_eccentricity", "ecc_elements"), ((1, 1), (4, 3))):
        if n == 1 and ld[0][0] == "p" and ld[0][2] == "bottom":
            continue
        yield dict(panels=n, span=sp, height=h, origin=list(org), loads=ld, models=[model], nel_chord=nel[0], nel_brace=nel[1], **pf)
    O = [["model", "no_eccentricity"], ["model", "ecc_elements"], ["load", ["u", -3.0, "top", "snow"]], ["load", ["p", [1e3, -6e3], "bottom", "x"]], ["prof", "top"], ["prof", "brace"], ["other"]]
    for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for w in itertools.product(O, repeat=d):
            yield dict(panels=3, span=9000, height=1800, origin=[0, 0], loads=VLOAD[0], models=["no_eccentricity"], ops=[list(o) for o in w], nel_chord=2, nel_brace=2, **VPROF[0])


def run_vier(c, ctx):
    c = dict(c, loads=list(c["loads"]))
    _, Q = mods()
    t = vierendeel(c)
    model = c["models"][0]
    alive = []

    def go(where):
        t.generate_fem(model)
        t.structural_analysis(load_id=2, support_method="ZERO", design=False)
        judge_vierendeel(c, t, ctx, where)
    go(str(c))
    for i, o in enumerate(c.get("ops", [])):
        if o[0] == "model":
            model = o[1]
        elif o[0] == "load":
            ld = o[1][:3] + [o[1][3] + str(i)]
            c["loads"].append(ld)
            vload(t, ld)
        elif o[0] == "prof":
            d = {"top": [180.0, 180.0, 8.0], "brace": [120.0, 120.0, 6.0]}[o[1]]
            c[o[1]] = d
            for m in (t.top_chord if o[1] == "top" else t.braces.values()):
                m.cross_section = Q.RHS(*d)
        elif o[0] == "other":
            a = vierendeel(dict(c, span=6000, loads=VLOAD[2]))
            a.generate_fem("no_eccentricity")
            a.structural_analysis(load_id=2, support_method="ZERO", design=False)
            alive.append(a)
        go(f"{c} after {i + 1} edits")


def families(tier):
    return [
        Family("topology", lambda: topo_cases(tier), run_topo, "every truss: brace pattern x divisions x first diagonal x edge verticals x chord ends x half spans x heights", "3 x 6 (12) x 2 x 2 x 3 x 4 x 4"),
        Family("forces", lambda: fe_cases(tier), run_fe, "every truss in every eccentricity model: brace pattern x divisions x options x loads x element types", "3 x 2 (4) x 6 x 2 x 2 x 3 x 3 x 3"),
        Family("joints", lambda: joint_cases(tier), run_joints, "geometry and design of every joint in every eccentricity model: brace pattern x divisions x options x profiles x loads", "2 x 2 (4) x 6 x 2 x 2 x 3 x 6 x 3"),
        Family("histories", lambda: history_cases(tier), run_history, "all sequences of edits (eccentricities, profiles, loads, models) followed by a new analysis", "depth 2 (3)"),
        Family("zones", lambda: zone_cases(tier), run_zones, "piecewise uniform loads: zone borders x values x divisions x element mesh", "2 x 3 x 2 x 2 x 231 (561) x 2"),
        Family("weight", lambda: weight_cases(tier), run_weight, "weight and cost of trusses are the sums over their parts", "3 x 2 x 2 x 4"),
        Family("vierendeel", lambda: vier_cases(tier), run_vier, "Vierendeel trusses: panels x dimensions x origin x profiles x loads x model x mesh; histories of edits followed by a new analysis", "4 (7) x 2 x 2 x 2 x 4 x 2 x 2; depth 3 (4)"),
    ]
