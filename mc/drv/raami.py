"""Drive metku.raami frames from plain descriptions, with an independent reference for every result.

Frame description:
  nodes   [[x, y], ...]
  members [{"n": [i, j], "sec": key, "type": "beam", "nel": 2, "hinges": [bool, bool]}]
  supp    [[node, kind], ...]   kind in fix, xy, x, y
Loads (ledger entries, the truth about what has to act):
  {"k": "P", "lid", "n", "v", "f"} | {"k": "L", "lid", "m", "q": [q0, q1], "dir", "cs", "f"} | {"k": "W", "lid", "m", "q", "xdiv", ...}
"""
import math
import numpy as np
from ..ref import frame as RF

SUPD = {"fix": [0, 1, 2], "xy": [0, 1], "x": [0], "y": [1]}
# profile key -> (constructor, A, Iy) are taken from the section under test; P12/P13 decide those
DENS, GRAV = 7850e-9, 9.81


def section(key, fy=355):
    from metku.sections.steel.RHS import RHS, SHS
    from metku.sections.steel.ISection import IPE, HEA, HEB
    t, *d = key.split()
    d = [float(x) for x in d]
    if t in ("IPE", "HEA", "HEB"):
        return {"IPE": IPE, "HEA": HEA, "HEB": HEB}[t](int(d[0]), fy=fy)
    return {"RHS": RHS, "SHS": SHS}[t](*d, fy=fy)


def build(d):
    from metku.raami.raami import Raami, FrameNode, SteelFrameMember, FixedSupport, XYHingedSupport, XHingedSupport, YHingedSupport
    fr = Raami()
    for xy in d["nodes"]:
        fr.add(FrameNode(list(xy)))
    for m in d["members"]:
        kw = {}
        if "hinges" in m:
            kw["hinges"] = list(m["hinges"])
        if "lcr" in m:
            kw["lcr"] = list(m["lcr"])
        fr.add(SteelFrameMember(nodes=[fr.nodes[i] for i in m["n"]], section=section(m["sec"], m.get("fy", 355)),
                                mem_type=m.get("type", "beam"), nel=m.get("nel", 2), **kw))
    cls = {"fix": FixedSupport, "xy": XYHingedSupport, "x": XHingedSupport, "y": YHingedSupport}
    for n, k in d["supp"]:
        fr.add(cls[k](fr.nodes[n]))
    return fr


def make_load(fr, l, **kw):
    from metku.raami.raami import PointLoad, LineLoad, PWLineLoad
    a = {"load_id": l["lid"], "f": l.get("f", 1.0), "ltype": l.get("ltype", "live")}
    if l.get("name"):
        a["name"] = l["name"]
    if l["k"] == "P":
        return PointLoad(fr.nodes[l["n"]], list(l["v"]), **a)
    if l["k"] == "L":
        return LineLoad(fr.members[l["m"]], list(l["q"]), l["dir"], coord_sys=l["cs"], **a)
    return PWLineLoad(fr.members[l["m"]], list(l["q"]), l["xdiv"], l["dir"], coord_sys=l["cs"], **a)


def mesh(d, fr):
    """reference model: own mesh of the description; section constants from the current sections"""
    nodes = [list(map(float, p)) for p in d["nodes"]]
    els, span = [], []
    for k, m in enumerate(d["members"]):
        s = fr.members[k].cross_section
        i, j = m["n"]
        nel = m.get("nel", 2)
        ids = [i]
        for t in range(1, nel):
            a, b = np.array(d["nodes"][i], float), np.array(d["nodes"][j], float)
            nodes.append(list(a + (b - a) * t / nel))
            ids.append(len(nodes) - 1)
        ids.append(j)
        first = len(els)
        for t in range(nel):
            typ = "rod" if m.get("type") in ("bar", "brace") else "beam"
            e = {"t": typ, "n": [ids[t], ids[t + 1]], "E": 210e3, "A": float(s.A), "I": float(s.I[0]), "rel": []}
            els.append(e)
        hg = m.get("hinges", [False, False])
        if els[first]["t"] == "beam":
            if hg[0]:
                els[first]["rel"] = els[first]["rel"] + [2]
            if hg[1]:
                els[-1]["rel"] = els[-1]["rel"] + [5]
        span.append((first, nel, ids))
    supp = [[1, n, SUPD[k]] for n, k in d["supp"]]
    return nodes, els, span, supp


def reference(d, fr, ledger, lids):
    """-> {lid: list per member of dict(N, Vz, My, u)} or RF.Singular"""
    nodes, els, span, supp = mesh(d, fr)
    loads = []
    for l in ledger:
        f = l.get("f", 1.0)
        if l["k"] == "P":
            loads.append({"k": "P", "sid": l["lid"], "n": l["n"], "v": l["v"], "f": f})
            continue
        first, nel, _ = span[l["m"]]
        for t in range(nel):
            if l["k"] == "L":
                q = [l["q"][0] + (l["q"][1] - l["q"][0]) * t / nel, l["q"][0] + (l["q"][1] - l["q"][0]) * (t + 1) / nel]
            else:
                q = [l["q"][0]] * 2 if (t + 1) / nel <= l["xdiv"] + 1e-9 else [l["q"][1]] * 2
            loads.append({"k": "L", "sid": l["lid"], "el": first + t, "q": q, "dir": l["dir"], "cs": l["cs"], "f": f})
    m = {"nodes": nodes, "els": els, "supp": supp, "loads": loads}
    out = {}
    for lid in lids:
        U, F = RF.solve(m, 1, lid)
        res = []
        for (first, nel, ids) in span:
            fe = F[first:first + nel]
            r = {"N": [x["fx"][0] for x in fe] + [fe[-1]["fx"][1]]}
            if "fz" in fe[0]:
                r["Vz"] = [x["fz"][0] for x in fe] + [fe[-1]["fz"][1]]
                r["My"] = [x["my"][0] for x in fe] + [fe[-1]["my"][1]]
            else:
                r["Vz"] = r["My"] = [0.0] * (nel + 1)
            r["u"] = [list(U[i]) for i in ids]
            res.append(r)
        out[lid] = res
    return out


def compare(ctx, fr, want, lid, key, what, L=6000.0, rel=5e-6, disp=True):
    from ..core import close_scaled, short
    F = max([1.0] + [abs(v) for r in want for k in ("N", "Vz") for v in r[k]] + [abs(v) / L for r in want for v in r["My"]])
    U = max([1e-5] + [max(abs(u[0]), abs(u[1]), L * abs(u[2])) for r in want for u in r["u"]])
    ok = True
    for i, r in enumerate(want):
        mem = fr.members[i]
        got = mem.nodal_forces[lid]
        for k in ("N", "Vz", "My"):
            g = [float(np.asarray(v).ravel()[0]) for v in got[k]]
            ok = ctx.expect(close_scaled(g, r[k], F * (L if k == "My" else 1), rel), f"{key}-{k}",
                            f"{what}: member {i} load case {lid} {k} {short(g)} reference {short(r[k])}") and ok
        if disp:
            g = [[float(v) for v in u] for u in mem.nodal_displacements[lid]]
            w = np.array(r["u"])
            g = np.array(g)
            ok = ctx.expect(g.shape == w.shape and close_scaled(g[:, :2], w[:, :2], U, rel) and close_scaled(g[:, 2] * L, w[:, 2] * L, U, rel),
                            f"{key}-u", f"{what}: member {i} load case {lid} displacements {short(g)} reference {short(w)}") and ok
    return ok


def selfweight(fr, k):
    return -float(fr.members[k].cross_section.A) * DENS * GRAV
