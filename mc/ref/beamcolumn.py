"""Independent second order (P-delta) plane-frame reference.

Every beam whose first order axial force N < 0 obeys  EI v'''' + |N| v'' = q  along its undeformed
axis.  The member is integrated as a linear ODE system (state v, v', M, T; matrix exponential), not with
stability functions; released ends keep their own unknowns (see frame.py), nothing is condensed.  Members
in tension are first order members.  T is the force perpendicular to the undeformed axis.
"""
import numpy as np
from scipy.linalg import expm
from . import frame as RF


def member(EI, L, P, q):
    """P >= 0 compression, uniform q -> (4x4 stiffness for [v1, r1, v2, r2], fixed end loads f)"""
    g = q * L**3 / EI
    A = np.array([[0, 1, 0, 0, 0], [0, 0, 1, 0, 0], [0, -P * L * L / EI, 0, -1, 0], [0, 0, 0, 0, -g], [0, 0, 0, 0, 0]], float)
    F = expm(A)
    Fab = F[0:2, 2:4]
    B = np.linalg.inv(Fab)
    # m0, t0 from end displacements (w0, r0, w1, r1) and the load
    S = np.zeros((2, 5))
    S[:, 0:2] = -B @ F[0:2, 0:2]
    S[:, 2:4] = B
    S[:, 4] = -B @ F[0:2, 4]
    Y0 = np.zeros((5, 5))
    Y0[0, 0] = Y0[1, 1] = Y0[4, 4] = 1
    Y0[2:4, :] = S
    Y1 = F @ Y0
    R = np.vstack([-Y0[3], -Y0[2], Y1[3], Y1[2]])     # f1, m1, f2, m2 (non dimensional)
    k = R[:, :4]
    f = -R[:, 4]
    sc = np.array([EI / L**2, EI / L, EI / L**2, EI / L])
    un = np.array([1 / L, 1, 1 / L, 1])
    return sc[:, None] * k * un[None, :], sc * f


def solve(m, supp_id, load_id):
    """-> (u, forces, worst relative stiffness pivot) ; raises RF.Singular when first order or second order is unstable"""
    U1, F1 = RF.solve(m, supp_id, load_id)
    K, act, els, N = RF._system(m)
    p = np.zeros(N)
    fl = [np.zeros(6) for _ in els]
    per = {}
    for ld in m["loads"]:
        if ld["sid"] != load_id:
            continue
        if ld["k"] == "P":
            p[3 * ld["n"]:3 * ld["n"] + 3] += ld.get("f", 1.0) * np.array(ld["v"], float)
            continue
        q1, q2 = ld["q"]
        assert q1 == q2, "uniform loads only"
        d = els[ld["el"]]
        g = np.array([1.0, 0.0] if ld["dir"] == "x" else [0.0, 1.0])
        if ld["cs"] != "local":
            g = np.array([d["c"] * g[0] + d["s"] * g[1], -d["s"] * g[0] + d["c"] * g[1]])
        assert abs(g[0]) < 1e-9, "axial force must be constant along the member"
        per[ld["el"]] = per.get(ld["el"], 0.0) + q1 * ld.get("f", 1.0) * g[1]
    b = [1, 2, 4, 5]
    for i, (d, f1) in enumerate(zip(els, F1)):
        e = d["e"]
        P = max(0.0, -f1["fx"][1])
        EI = e["E"] * e["I"]
        if P * d["L"]**2 / EI > 9.0:
            raise RF.Singular()
        k4, f4 = member(EI, d["L"], P, per.get(i, 0.0))
        k2 = d["k"].copy()
        k2[np.ix_(b, b)] = k4
        K += d["M"].T @ (k2 - d["k"]) @ d["M"]
        d["k"] = k2
        fl[i][b] = f4
        p += d["M"].T @ fl[i]
    free = RF._free(m, act, supp_id, N)
    u = np.zeros(N)
    Kf = K[np.ix_(free, free)]
    D = np.diag(Kf).copy()
    if np.any(D <= 0):
        raise RF.Singular()
    D = np.sqrt(D)
    Ks = Kf / np.outer(D, D)
    w = np.linalg.eigvalsh(0.5 * (Ks + Ks.T))
    if w[0] <= 0 or w[-1] / w[0] > RF.COND_MAX:
        raise RF.Singular()
    u[free] = np.linalg.solve(Ks, p[free] / D) / D
    out = []
    for d, f in zip(els, fl):
        R = d["k"] @ (d["M"] @ u) - f
        out.append({"fx": [-R[0], R[3]], "fz": [R[1], -R[4]], "my": [-R[2], R[5]]})
    nn = len(m["nodes"])
    return u[:3 * nn].reshape(nn, 3).copy(), out
