"""P37: linear statics of beams and rods in space = exact beam theory over all small models."""
import itertools
import math
import numpy as np
from ..core import Family, canon, close_scaled, short
from ..ref import space as RS

E, NU = 210e3, 0.3
G = E / 2 / (1 + NU)
SEC = {"a": dict(A=3000.0, Iy=8.0e6, Iz=3.0e6, J=2.0e5), "b": dict(A=1200.0, Iy=2.5e6, Iz=2.5e6, J=4.0e6)}


def el(t, i, j, s="a", ref=None):
    d = dict(t=t, n=[i, j], E=E, G=G, ref=ref, **SEC[s])
    return d


def build(m, cases, late=False):
    from metku.framefem.framefem import FrameFEM, BeamSection, Material, PointLoad, LineLoad, FEMNode
    from metku.framefem.elements.ebbeam import EBBeam3D
    from metku.framefem.elements.rod import Rod
    f = FrameFEM()
    if late:                          # load cases before the rest of the model
        for s, l in cases:
            f.add_loadcase(supp_id=s, load_id=l)
    for x in m["nodes"]:
        f.add_node(*x)
    mat = Material(E, 7850e-9, nu=NU)
    for e in m["els"]:
        n = [f.nodes[i] for i in e["n"]]
        sec = BeamSection(e["A"], e["Iy"], e["Iz"], e["J"])
        if e["t"] == "rod":
            f.add_element(Rod(*n, sec, mat))
        else:
            f.add_element(EBBeam3D(*n, sec, mat, nref=None if e["ref"] is None else FEMNode(-1, *e["ref"])))
    for s, n, dofs in m["supp"]:
        f.add_support(s, n, list(dofs))
    for ld in m["loads"]:
        add_load(f, ld)
    if not late:
        for s, l in cases:
            f.add_loadcase(supp_id=s, load_id=l)
    f.nodal_dofs()
    return f


def add_load(f, ld):
    from metku.framefem.framefem import PointLoad, LineLoad
    if ld["k"] == "P":
        l = PointLoad(ld["sid"], f.nodes[ld["n"]], list(ld["v"]), ld.get("f", 1.0))
    else:
        l = LineLoad(ld["sid"], f.elements[ld["el"]], [0, 1], list(ld["q"]), ld["dir"], coords=ld["cs"])
        l.f = ld.get("f", 1.0)
    f.add_load(l)


SIGN = dict(fx=(0, -1), fy=(1, -1), fz=(2, 1), mx=(3, -1), my=(4, -1), mz=(5, 1))


def compare(ctx, f, m, lid, want, key, what):
    """displacements and end forces: each kind against its magnitude in the model"""
    U0, F0 = want
    L = max(math.dist(a, b) for a, b in itertools.combinations(m["nodes"], 2))
    rel = 1e-5
    U = np.array([n.u[lid] for n in f.nodes], float)
    ctx.state(canon(U, 4))
    su = max(1e-3, np.abs(U0[:, :3]).max(), L * np.abs(U0[:, 3:]).max())
    ctx.expect(close_scaled(U[:, :3], U0[:, :3], su, rel) and close_scaled(U[:, 3:] * L, U0[:, 3:] * L, su, rel),
               key + "-displacement", f"{what}: displacements {short(U)} reference {short(U0)}")
    sf = max([1e-3] + [abs(v) / (1 if j % 6 < 3 else L) for a in F0 for j, v in enumerate(a)])
    for i, (e, a) in enumerate(zip(f.elements, F0)):
        fi = e.fint[lid]
        for k, (j, s) in SIGN.items():
            if m["els"][i]["t"] == "rod" and k != "fx":
                continue
            sc = sf * (1 if j < 3 else L)
            got = [float(np.asarray(v).ravel()[0]) for v in fi[k]]
            exp = [s * a[j], -s * a[j + 6]]
            ctx.expect(close_scaled(got, exp, sc, rel), key + "-" + k, f"{what}: element {i} {k} {short(got)} reference {short(exp)}")


def run(c, ctx):
    m, cases = c["m"], c["cases"]
    try:
        want = {l: RS.solve(m, s, l) for s, l in cases}
    except RS.Singular:
        ctx.undefined += 1
        ctx.state("singular")
        return
    f = build(m, cases, c.get("late", False))
    meth = c["method"]
    if c.get("list"):
        f.linear_statics([l for _, l in cases], support_method=meth)
    else:
        for s, l in cases:
            f.linear_statics(l, support_method=meth)
            compare(ctx, f, m, l, want[l], meth, f"{c['what']} case {l}")
    for s, l in cases:
        compare(ctx, f, m, l, want[l], "all-" + meth, f"{c['what']} case {l} after all analyses")


SUP = {"fix": [0, 1, 2, 3, 4, 5], "ball": [0, 1, 2], "fork": [0, 1, 2, 3], "gz": [2], "gyz": [1, 2, 3], "clampless-x": [1, 2, 3, 4, 5], "free": []}
LINES = [([-4.0, -4.0], "z", "global"), ([-4.0, 2.0], "y", "global"), ([1.0, 5.0], "x", "global"),
         ([0.0, -6.0], "z", "local"), ([-2.0, 3.0], "y", "local"), ([5.0, 1.0], "x", "local")]
POINTS = [[1e4, 0, 0, 0, 0, 0], [0, 1e4, 0, 0, 0, 0], [0, 0, -1e4, 0, 0, 0], [0, 0, 0, 2e6, 0, 0], [0, 0, 0, 0, 3e6, 0], [0, 0, 0, 0, 0, 1e6]]


def line(k, e, sid, f=1.0):
    q, d, cs = LINES[k % len(LINES)]
    return {"k": "L", "sid": sid, "el": e, "q": q, "dir": d, "cs": cs, "f": f}


def member_cases(deep):
    """one member: direction x orientation x supports x elements x every load as its own case"""
    dirs = [(4000, 0, 0), (-4000, 0, 0), (0, 4000, 0), (0, 0, 4000), (0, 0, -4000), (3000, 4000, 0), (3000, 0, 4000), (0, -4000, 3000), (2000, -1000, 2000), (-1400, -4800, 1200)]
    refs = [None, (100, 9000, -300), (7000, 50, 9000), (-6000, -6500, 700)]
    for d, ref, (s1, s2), nel in itertools.product(dirs, refs, itertools.product(SUP, SUP), (1, 2)):
        if not deep and (nel == 2) != (ref is not None and d[2] != 0):
            continue
        nodes = [[500 + d[0] * i / nel, 250 + d[1] * i / nel, -100 + d[2] * i / nel] for i in range(nel + 1)]
        els = [el("beam", i, i + 1, "ab"[i], ref) for i in range(nel)]
        supp = [x for x in ([1, 0, SUP[s1]], [1, nel, SUP[s2]]) if x[2]]
        loads, cases = [], []
        for k in range(len(LINES)):
            loads.append(line(k, k % nel, 10 + k, 1.0 if k % 2 else 1.5))
            cases.append([1, 10 + k])
        for k, v in enumerate(POINTS):
            loads.append({"k": "P", "sid": 20 + k, "n": nel if s2 == "free" or nel == 2 and k % 2 else 0 if s1 == "free" else nel - 1, "v": v, "f": 1.0 if k % 2 else 0.5})
            cases.append([1, 20 + k])
        for meth in ("REM", "ZERO"):
            yield dict(m=dict(nodes=nodes, els=els, supp=supp, loads=loads), cases=cases, method=meth, list=meth == "ZERO", what=f"{d} ref {ref} {s1}/{s2} {nel} elements")


TEMPL = {
    "tripod": ([[0, 0, 0], [4000, 0, 0], [0, 3000, 0], [1000, 1200, 2500]], [(0, 3), (1, 3), (3, 2)], [0, 1, 2]),
    "corner": ([[0, 0, 0], [3000, 0, 0], [3000, 2500, 0], [3000, 2500, 2000]], [(0, 1), (1, 2), (2, 3)], [0, 3]),
    "portal": ([[0, 0, 0], [0, 0, 3000], [4000, 0, 3000], [4000, 0, 0], [4000, 5000, 3000], [4000, 5000, 0]], [(0, 1), (1, 2), (2, 3), (2, 4), (4, 5)], [0, 3, 5]),
    "tetra": ([[0, 0, 0], [4000, 0, 0], [1000, 3000, 0], [1500, 1000, 2500]], [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)], [0, 1, 2]),
    "mast": ([[0, 0, 0], [0, 0, 3000], [100, 50, 6000], [3000, 0, 0], [-1500, 2500, 0], [-1500, -2500, 0]], [(0, 1), (1, 2), (3, 2), (4, 2), (5, 1)], [0, 3, 4, 5]),
}


def frame_cases(deep):
    """every assignment of beam or rod to the members x supports x three load cases"""
    for name, (nodes, topo, sn) in TEMPL.items():
        for asg in itertools.product(("beam", "rod"), repeat=len(topo)):
            for sup in (("fix",) * 4, ("ball",) * 4, ("fix", "ball", "gz", "ball"), ("ball", "fix", "gyz", "fork"), ("fix", "free", "ball", "gz"), ("ball", "gyz", "gz", "ball")):
                els = [el(t, i, j, "ab"[k % 2], (900, -8000, 7000) if k % 3 == 2 else None) for k, (t, (i, j)) in enumerate(zip(asg, topo))]
                supp = [[1, n, SUP[s]] for n, s in zip(sn, sup) if SUP[s]]
                loads = [{"k": "P", "sid": 2, "n": n, "v": [1e3 * (n + 1), -700.0 * n, -2e3 * (n + 1), 0, 0, 0], "f": 1.0} for n in range(len(nodes))]
                bn = sorted({i for e in els if e["t"] == "beam" for i in e["n"]})
                loads += [{"k": "P", "sid": 3, "n": n, "v": [0, 2e3, 0, 1e6, -2e6, 5e5 * (n + 1)], "f": 1.5} for n in bn[:2]]
                for k, e in enumerate(els):
                    for x in (0, 1, 2) if e["t"] == "rod" else (k + 3, 5 * k):
                        if e["t"] == "beam" or (k + x) % 2:
                            loads.append(line(x, k, 4, 1.0 if x % 2 else -0.5))
                for v in range(4 if deep else 2):
                    yield dict(m=dict(nodes=nodes, els=els, supp=supp, loads=loads), cases=[[1, 2], [1, 3], [1, 4]], method="REM" if v % 2 else "ZERO",
                               list=bool(sum(a == "rod" for a in asg) + v & 1) if not deep else v > 1, late=len(sup) and (sum(a == "rod" for a in asg) % 2 == 0), what=f"{name} {asg} {sup}")


OPS = ["add-load", "add-line", "factor", "section", "node", "support", "loadcase", "turn", "material", "swing"]


def hist_cases(deep):
    for n in range(1, 4 if deep else 3):
        for h in itertools.product(OPS, repeat=n):
            for t in ("corner", "tripod"):
                for meth in ("REM", "ZERO"):
                    yield dict(t=t, h=h, method=meth)


def run_hist(c, ctx):
    """the model is changed and analysed again: each answer is that of the model as it now is"""
    from metku.framefem.framefem import Material, FEMNode
    nodes, topo, sn = TEMPL[c["t"]]
    m = dict(nodes=[list(map(float, x)) for x in nodes], els=[el("beam", i, j, "a") for i, j in topo], supp=[[1, n, SUP["fix" if n == 0 else "ball"]] for n in sn],
             loads=[{"k": "P", "sid": 2, "n": 1 if c["t"] == "corner" else 3, "v": [1e3, 2e3, -5e3, 1e6, 0, 0], "f": 1.0}, line(0, 1, 2), line(4, 1, 2, 2.0)])
    cases = [[1, 2]]
    f = build(m, cases)

    def check(what):
        for s, l in cases:
            f.linear_statics(l, support_method=c["method"])
            compare(ctx, f, m, l, RS.solve(m, s, l), "history-" + c["method"], f"{c} {what}")
    check("new")
    for k, o in enumerate(c["h"]):
        if o == "add-load":
            ld = {"k": "P", "sid": cases[-1][1], "n": topo[1][0] if c["t"] == "corner" else 3, "v": [0, -3e3, 1e3 * (k + 1), 0, 5e5, 2e5], "f": 1.0}
            m["loads"].append(ld)
            add_load(f, ld)
        elif o == "add-line":
            ld = line(3 + k, 0, cases[-1][1], 1.5)
            m["loads"].append(ld)
            add_load(f, ld)
        elif o == "factor":
            f.loads[-1].f = m["loads"][-1]["f"] = m["loads"][-1]["f"] * -1.25
        elif o == "section":
            s, e = f.elements[k % 2].section, m["els"][k % 2]
            s.A, s.I[0], s.I[1], s.J = 2000.0, 6e6, 5e6, 3e6
            e.update(A=2000.0, Iy=6e6, Iz=5e6, J=3e6)
        elif o == "material":
            f.elements[-1].material = Material(70e3, 2700e-9, nu=0.25)
            m["els"][-1].update(E=70e3, G=28e3)
        elif o in ("node", "swing"):
            i = 1 if c["t"] == "corner" else 3
            n, x = f.nodes[i], m["nodes"][i]
            # swing: the first member keeps its length
            x[:] = [x[0] + 200.0, x[1], x[2] + 300.0] if o == "node" else [x[1], x[0], x[2]]
            n.x, n.y, n.z = x
            # the orientation of a member is that of its reference node, taken when it was made
            for e, d in zip(f.elements, m["els"]):
                d["ref"] = [float(v) for v in e.nref.coord]
        elif o == "support":
            f.add_support(1, sn[-1], [3, 4, 5])
            m["supp"].append([1, sn[-1], [3, 4, 5]])
        elif o == "loadcase":
            l = 10 + k
            ld = [{"k": "P", "sid": l, "n": 2 if c["t"] == "corner" else 3, "v": [500.0, 0, 700.0 * (k + 1), 0, 0, 1e5], "f": 1.0}, line(k, 2, l)]
            for x in ld:
                m["loads"].append(x)
                add_load(f, x)
            f.add_loadcase(supp_id=1, load_id=l)
            cases.append([1, l])
        elif o == "turn":
            ref = [3000.0 + 500 * k, -7000.0, 8000.0]
            f.elements[1].nref = FEMNode(-1, *ref)
            m["els"][1]["ref"] = ref
        check(f"after {k} {o}")


def profile_cases(deep):
    for p in ("HEA200", "IPE300", "RHS", "SHS"):
        for d in [(3000, 0, 0), (0, 0, 3000), (1000, 2000, 2000)]:
            for k in range(6):
                yield dict(p=p, d=d, k=k)


def run_profile(c, ctx):
    """steel profiles as sections: the tip of a cantilever"""
    from metku.framefem.framefem import FrameFEM, PointLoad
    from metku.framefem.elements.ebbeam import EBBeam3D
    from metku.sections.steel.ISection import HEA, IPE
    from metku.sections.steel.RHS import RHS, SHS
    p = {"HEA200": lambda: HEA(200), "IPE300": lambda: IPE(300), "RHS": lambda: RHS(200, 100, 6), "SHS": lambda: SHS(100, 5)}[c["p"]]()
    G0 = p.material.G if hasattr(p.material, "G") else E / 2.6
    m = dict(nodes=[[0, 0, 0], list(c["d"])], els=[dict(t="beam", n=[0, 1], E=p.E, G=G0, A=p.A, Iy=p.I[0], Iz=p.I[1], J=p.It, ref=None)],
             supp=[[1, 0, SUP["fix"]]], loads=[{"k": "P", "sid": 2, "n": 1, "v": POINTS[c["k"]], "f": 1.0}])
    f = FrameFEM()
    for x in m["nodes"]:
        f.add_node(*x)
    f.add_element(EBBeam3D(f.nodes[0], f.nodes[1], p, mat(p.E, G0)))
    f.add_support(1, 0, SUP["fix"])
    f.add_load(PointLoad(2, f.nodes[1], POINTS[c["k"]], 1.0))
    f.add_loadcase(supp_id=1, load_id=2)
    f.nodal_dofs()
    f.linear_statics(2)
    compare(ctx, f, m, 2, RS.solve(m, 1, 2), "profile", str(c))


def mat(e, g):
    from metku.framefem.framefem import Material
    return Material(e, 7850e-9, nu=e / 2 / g - 1)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("member", lambda: member_cases(deep), run, "direction x orientation node x support pair x every load component as its own case x method", "10 directions, 4 orientations, 7 x 7 supports, 12 loads"),
        Family("frames", lambda: frame_cases(deep), run, "every assignment of beam or rod to 5 topologies x supports x load cases", "<= 6 members, 6 support sets, 3 load cases, 2 methods"),
        Family("histories", lambda: hist_cases(deep), run_hist, "all sequences of changes of the model, analysed after each", "10 changes, depth 2 (3), 2 frames, 2 methods"),
        Family("profiles", lambda: profile_cases(deep), run_profile, "steel profiles as sections of a cantilever in space", "4 profiles x 3 directions x 6 load components"),
    ]
