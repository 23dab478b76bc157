"""Linear statics of frames in space by the flexibility method (shares nothing with metku).

Everything is in global coordinates.  The compliance of a cross-section,
C = R^T diag(..) R, is integrated along the member to the flexibility of the end 2 with
end 1 clamped; the stiffness follows by inversion and equilibrium of the member.

Model: nodes [[x, y, z]], els [{t: beam|rod, n: [i, j], E, G, A, Iy, Iz, J, ref: point or None}],
supp [[sid, node, [dofs]]], loads [{k: P, sid, n, v[6], f} | {k: L, sid, el, q: [q1, q2], dir, cs, f}].
"""
import math
import numpy as np

GP, GW = np.polynomial.legendre.leggauss(5)


class Singular(Exception):
    pass


def axes(p1, p2, ref=None):
    """local axes: x along the member, z on the side of the reference point, y = z x x"""
    p1, p2 = np.array(p1, float), np.array(p2, float)
    ex = (p2 - p1) / math.dist(p1, p2)
    if ref is None:
        ref = p2 + ((1, 0, 0) if math.hypot(ex[0], ex[1]) < 1e-6 else (0, 0, 1))
    v = np.array(ref, float) - p1
    ez = v - (v @ ex) * ex
    ez = ez / np.linalg.norm(ez)
    return np.array([ex, np.cross(ez, ex), ez])


def skew(r):
    """r x F = skew(r) F"""
    return np.array([[0, -r[2], r[1]], [r[2], 0, -r[0]], [-r[1], r[0], 0.0]])


def transfer(r):
    """wrench at a point -> the same wrench at a point from which the first is at r"""
    T = np.eye(6)
    T[3:, :3] = skew(r)
    return T


def beam(e, X):
    """-> (K 12x12, function(load) -> fixed end actions 12) in global coordinates"""
    p1, p2 = (np.array(X[i], float) for i in e["n"])
    R = axes(p1, p2, e.get("ref"))
    L = math.dist(p1, p2)
    C = np.zeros((6, 6))
    C[:3, :3] = np.outer(R[0], R[0]) / (e["E"] * e["A"])
    C[3:, 3:] = R.T @ np.diag([1 / (e["G"] * e["J"]), 1 / (e["E"] * e["Iy"]), 1 / (e["E"] * e["Iz"])]) @ R
    s = 0.5 * (GP + 1)
    d = p2 - p1
    F = sum(0.5 * w * L * transfer(d * (1 - t)).T @ C @ transfer(d * (1 - t)) for t, w in zip(s, GW))
    K22 = np.linalg.inv(F)
    H = np.vstack((-transfer(d), np.eye(6)))      # end actions from those at end 2

    def fixed(q1, q2, n):
        """forces of the member on the clamped ends' loads: actions applied to the member at its ends"""
        u = np.zeros(6)
        for t, w in zip(s, GW):
            wr = np.zeros(6)
            for a, b in zip(t + (1 - t) * s, 0.5 * GW * (1 - t) * L):
                f = (q1 + (q2 - q1) * a) * b * n
                wr[:3] += f
                wr[3:] += np.cross(d * (a - t), f)
            u += 0.5 * w * L * transfer(d * (1 - t)).T @ C @ wr
        r2 = -K22 @ u
        tot = np.zeros(6)
        for a, w in zip(s, GW):
            f = (q1 + (q2 - q1) * a) * 0.5 * w * L * n
            tot[:3] += f
            tot[3:] += np.cross(d * a, f)
        return np.concatenate((-tot - transfer(d) @ r2, r2))
    return H @ K22 @ H.T, fixed, R


def rod(e, X):
    p1, p2 = (np.array(X[i], float) for i in e["n"])
    L = math.dist(p1, p2)
    n = (p2 - p1) / L
    g = np.concatenate((-n, [0, 0, 0], n, [0, 0, 0]))

    def fixed(q1, q2, m):
        z = np.zeros(3)
        return -np.concatenate(((q1 / 3 + q2 / 6) * L * m, z, (q1 / 6 + q2 / 3) * L * m, z))
    return e["E"] * e["A"] / L * np.outer(g, g), fixed, axes(p1, p2)


def solve(m, sid, lid):
    """-> (displacements n x 6, [end actions in local axes 12])"""
    X = m["nodes"]
    nn = len(X)
    K = np.zeros((6 * nn, 6 * nn))
    P = np.zeros(6 * nn)
    parts, rot = [], set()
    for k, e in enumerate(m["els"]):
        Ke, fixed, R = (beam if e["t"] == "beam" else rod)(e, X)
        if e["t"] == "beam":
            rot.update(e["n"])
        ix = [6 * i + j for i in e["n"] for j in range(6)]
        fe = np.zeros(12)
        for ld in m["loads"]:
            if ld["k"] == "L" and ld["sid"] == lid and ld["el"] == k:
                n = np.eye(3)["xyz".index(ld["dir"])]
                if ld["cs"] == "local":
                    n = R.T @ n
                fe += fixed(ld["q"][0] * ld.get("f", 1.0), ld["q"][1] * ld.get("f", 1.0), n)
        K[np.ix_(ix, ix)] += Ke
        P[ix] -= fe
        parts.append((Ke, fe, R, ix))
    for ld in m["loads"]:
        if ld["k"] == "P" and ld["sid"] == lid:
            for j in range(6):
                if j < 3 or ld["n"] in rot:
                    P[6 * ld["n"] + j] += ld.get("f", 1.0) * ld["v"][j]
    fixd = {6 * n + d for s, n, dofs in m["supp"] if s == sid for d in dofs}
    fixd |= {6 * n + d for n in range(nn) if n not in rot for d in (3, 4, 5)}
    free = [i for i in range(6 * nn) if i not in fixd]
    u = np.zeros(6 * nn)
    if free:
        A = K[np.ix_(free, free)]
        # scaled conditioning decides whether the model is a mechanism
        dg = np.sqrt(np.maximum(np.diag(A), 1e-300))
        S = A / np.outer(dg, dg)
        if np.min(np.diag(A)) <= 0 or np.linalg.cond(S) > 1e6:
            raise Singular()
        u[free] = np.linalg.solve(S, P[free] / dg) / dg
    out = []
    for Ke, fe, R, ix in parts:
        a = Ke @ u[ix] + fe
        B = np.kron(np.eye(4), R)
        out.append(B @ a)
    return u.reshape(nn, 6), out
