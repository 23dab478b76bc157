"""Thin-walled open sections: everything by Gauss integration along the middle line (own formulation: shear centre and
warping constant by orthogonal projection of the sectorial coordinate on 1, y and z)."""
import math
import numpy as np

GX = [-math.sqrt(0.6), 0.0, math.sqrt(0.6)]
GW = [5 / 18, 8 / 18, 5 / 18]


def properties(nodes, ts):
    """nodes: [(y, z)] of an unbranched line, ts: thickness of each segment -> dict"""
    w, Y, Z, W = [], [], [], []
    om = 0.0
    y0, z0 = nodes[0]
    for (a, b), (c, d), t in zip(nodes[:-1], nodes[1:], ts):
        L = math.hypot(c - a, d - b)
        # sectorial coordinate with the pole at the first node: twice the swept area
        inc = (a - y0) * (d - z0) - (c - y0) * (b - z0)
        for x, g in zip(GX, GW):
            s = 0.5 * (1 + x)
            w.append(g * L * t)
            Y.append(a + s * (c - a))
            Z.append(b + s * (d - b))
            W.append(om + s * inc)
        om += inc
    w, Y, Z, W = map(np.array, (w, Y, Z, W))
    A = w.sum()
    yc, zc = (w * Y).sum() / A, (w * Z).sum() / A
    y, z = Y - yc, Z - zc
    Iy, Iz, Iyz = (w * z * z).sum(), (w * y * y).sum(), (w * y * z).sum()
    r = math.hypot((Iy - Iz) / 2, Iyz)
    out = {"A": A, "yc": yc, "zc": zc, "Sy": A * zc, "Sz": A * yc, "Iy": Iy, "Iz": Iz, "Iyz": Iyz,
           "Iy0": (w * Z * Z).sum(), "Iz0": (w * Y * Y).sum(), "Iyz0": (w * Y * Z).sum(),
           "I1": (Iy + Iz) / 2 + r, "I2": (Iy + Iz) / 2 - r, "It": sum(wi * ti * ti / 3 for wi, ti in zip([math.dist(p, q) * t for p, q, t in zip(nodes[:-1], nodes[1:], ts)], ts))}
    det = Iy * Iz - Iyz**2
    if det > 1e-7 * (Iy + Iz)**2:
        omc = W - (w * W).sum() / A
        Py, Pz = (w * omc * y).sum(), (w * omc * z).sum()
        b, c = np.linalg.solve([[Iz, Iyz], [Iyz, Iy]], [Py, Pz])
        out["ysc"], out["zsc"] = y0 + c, z0 - b
        res = omc - b * y - c * z
        out["Iw"] = (w * res * res).sum()
    return out


def fillet(pts, r, n):
    """middle line with every right-angled corner of the sharp line replaced by n-1 chords of its arc of radius r"""
    out = [tuple(pts[0])]
    for p, q, s in zip(pts[:-2], pts[1:-1], pts[2:]):
        u = ((p[0] - q[0]) / math.dist(p, q), (p[1] - q[1]) / math.dist(p, q))
        v = ((s[0] - q[0]) / math.dist(s, q), (s[1] - q[1]) / math.dist(s, q))
        c = (q[0] + r * (u[0] + v[0]), q[1] + r * (u[1] + v[1]))
        for k in range(n):
            f = 0.5 * math.pi * k / (n - 1)
            out.append((c[0] - r * (v[0] * math.cos(f) + u[0] * math.sin(f)), c[1] - r * (v[1] * math.cos(f) + u[1] * math.sin(f))))
    out.append(tuple(pts[-1]))
    return out
