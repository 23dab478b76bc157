"""Drive metku.framefem from a plain model description (see mc/ref/frame.py)."""
import numpy as np


def build(m, cases):
    """-> (FrameFEM, loads list parallel to m['loads'])"""
    from metku.framefem.framefem import FrameFEM, BeamSection, PointLoad, LineLoad
    f = FrameFEM()
    for x, y in m["nodes"]:
        f.add_node(x, y)
    for e in m["els"]:
        add_element(f, e)
    for sid, n, dofs in m["supp"]:
        f.add_support(sid, n, list(dofs))
    loads = [add_load(f, ld) for ld in m["loads"]]
    for s, l in cases:
        f.add_loadcase(supp_id=s, load_id=l)
    f.nodal_dofs()
    return f, loads


def add_element(f, e):
    from metku.framefem.framefem import BeamSection, Section, Material
    from metku.framefem.elements.ebbeam import EBBeam
    from metku.framefem.elements.rod import Rod
    from metku.framefem.elements.springs import LinearSpring
    from metku.framefem.elements.eb_semi_rigid_beam import EBSemiRigidBeam
    n1, n2 = f.nodes[e["n"][0]], f.nodes[e["n"][1]]
    t = e["t"]
    if t == "spring":
        el = LinearSpring(n1, n2, k=e["k"])
    else:
        mat = Material(e["E"], 7850e-9, nu=0.3)
        sec = BeamSection(e["A"], e.get("I", 0.0))
        if t == "rod":
            el = Rod(n1, n2, sec, mat)
        elif t == "semi":
            el = EBSemiRigidBeam(n1, n2, sec, mat, rot_stiff=list(e["rs"]))
        else:
            el = EBBeam(n1, n2, sec, mat)
    f.add_element(el)
    for d in e.get("rel") or []:
        f.add_release(len(f.elements) - 1, [d])
    return el


def add_load(f, ld):
    from metku.framefem.framefem import PointLoad, LineLoad
    if ld["k"] == "P":
        l = PointLoad(ld["sid"], f.nodes[ld["n"]], list(ld["v"]), ld.get("f", 1.0))
    else:
        l = LineLoad(ld["sid"], f.elements[ld["el"]], [0, 1], list(ld["q"]), ld["dir"], coords=ld["cs"])
        l.f = ld.get("f", 1.0)
    f.add_load(l)
    return l


def observe(f, lid):
    U = np.zeros((len(f.nodes), 3))
    for i, n in enumerate(f.nodes):
        u = np.array(n.u[lid], float)
        U[i, :len(u)] = u
    out = []
    for el in f.elements:
        fi = el.fint[lid]
        out.append({k: [float(np.asarray(v).ravel()[0]) for v in fi[k]] for k in ("fx", "fz", "my")})
    return U, out


def compare(ctx, got, want, key, what, rel=2e-6, spans=None, **data):
    """displacements and end forces, each kind scaled by its own magnitude in the model"""
    U, F = got
    U0, F0 = want
    from ..core import close_scaled, short
    L = spans or 1000.0
    su = max(1e-6, float(np.max(np.abs(U0[:, :2]), initial=0)), L * float(np.max(np.abs(U0[:, 2]), initial=0)))
    ok = ctx.expect(close_scaled(U[:, :2], U0[:, :2], su, rel) and close_scaled(U[:, 2] * L, U0[:, 2] * L, su, rel),
                    key + "-displacement", f"{what}: displacements {short(U)} reference {short(U0)}", **data)
    sf = max([1e-3] + [abs(v) for f in F0 for k in ("fx", "fz") if k in f for v in f[k]] + [abs(v) / L for f in F0 for v in f.get("my", [])])
    for i, (f, f0) in enumerate(zip(F, F0)):
        for k in f0:
            sc = sf * (L if k == "my" else 1)
            ok = ctx.expect(close_scaled(f[k], f0[k], sc, rel), key + "-" + k,
                            f"{what}: element {i} {k} {short(f[k])} reference {short(f0[k])}", **data) and ok
    return ok
