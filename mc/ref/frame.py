"""Independent plane-frame reference solver.

Formulation differs on purpose from the code under test: nothing is condensed.  Every released end
displacement and every semi-rigid joint gets its own extra unknown, the consistent loads and the
stiffness matrix are integrated numerically from the shape functions (Gauss quadrature, exact for
the polynomials involved), and end forces are recovered from the uncondensed element.

Model description (plain data):
  nodes  : [[x, y], ...]
  els    : [{"t": "beam"|"rod"|"spring"|"semi", "n": [i, j], "A","I","E", "rel": [...], "k", "rs": [k1, k2]}]
  supp   : [[sid, node, [dofs]], ...]
  loads  : [{"k": "P", "sid", "n", "v", "f"} | {"k": "L", "sid", "el", "q": [q1, q2], "dir": "x"|"y", "cs": "local"|"global", "f"}]
End forces are returned with the sign convention of the code under test:
  fx = tension positive at both ends, fz = [R1, -R4], my = [-R2, R5].
"""
import numpy as np

GP = np.polynomial.legendre.leggauss(4)
RIGID = 1e20
COND_MAX = 1e9


def _geom(m, e):
    (x1, y1), (x2, y2) = m["nodes"][e["n"][0]], m["nodes"][e["n"][1]]
    L = float(np.hypot(x2 - x1, y2 - y1))
    return L, (x2 - x1) / L, (y2 - y1) / L


def _beam_k(E, A, I, L):
    k = np.zeros((6, 6))
    for xi, w in zip(*GP):
        x = 0.5 * L * (xi + 1)
        wt = 0.5 * L * w
        Ba = np.array([-1 / L, 0, 0, 1 / L, 0, 0])
        Bb = np.array([0, -6 / L**2 + 12 * x / L**3, -4 / L + 6 * x / L**2, 0, 6 / L**2 - 12 * x / L**3, -2 / L + 6 * x / L**2])
        k += wt * (E * A * np.outer(Ba, Ba) + E * I * np.outer(Bb, Bb))
    return k


def _beam_kg(P, L):
    """geometric stiffness for tension P"""
    k = np.zeros((6, 6))
    for xi, w in zip(*GP):
        x = 0.5 * L * (xi + 1)
        wt = 0.5 * L * w
        D = np.array([0, -6 * x / L**2 + 6 * x**2 / L**3, 1 - 4 * x / L + 3 * x**2 / L**2, 0, 6 * x / L**2 - 6 * x**2 / L**3, -2 * x / L + 3 * x**2 / L**2])
        k += wt * P * np.outer(D, D)
    return k


def _beam_f(load, L, c, s):
    q1, q2 = (float(v) * load.get("f", 1.0) for v in load["q"])
    if load["cs"] == "local":
        d = (1.0, 0.0) if load["dir"] == "x" else (0.0, 1.0)
    else:
        g = (1.0, 0.0) if load["dir"] == "x" else (0.0, 1.0)
        d = (c * g[0] + s * g[1], -s * g[0] + c * g[1])
    f = np.zeros(6)
    for xi, w in zip(*GP):
        t = 0.5 * (xi + 1)
        x = t * L
        q = q1 + (q2 - q1) * t
        Na = np.array([1 - t, 0, 0, t, 0, 0])
        Nb = np.array([0, 1 - 3 * t**2 + 2 * t**3, x - 2 * x**2 / L + x**3 / L**2, 0, 3 * t**2 - 2 * t**3, -x**2 / L + x**3 / L**2])
        f += 0.5 * L * w * q * (d[0] * Na + d[1] * Nb)
    return f


class Singular(Exception):
    pass


def _system(m):
    """numbering and stiffness. Node dof k of node i -> 3*i+k (may be inactive)."""
    nn = len(m["nodes"])
    active = np.zeros(3 * nn, bool)
    next_dof = 3 * nn
    els = []
    for e in m["els"]:
        L, c, s = _geom(m, e)
        i, j = e["n"]
        d = {"L": L, "c": c, "s": s, "e": e}
        if e["t"] in ("rod", "spring"):
            for n in (i, j):
                active[3 * n:3 * n + 2] = True
            d["loc"] = None
        else:
            for n in (i, j):
                active[3 * n:3 * n + 3] = True
            # local end displacement k = linear combination of unknowns
            rows = []
            springs = []
            rel = list(e.get("rel", []) or [])
            rs = e.get("rs", [RIGID, RIGID]) if e["t"] == "semi" else [RIGID, RIGID]
            for k in range(6):
                n = i if k < 3 else j
                kk = k % 3
                if k in rel:
                    rows.append({next_dof: 1.0})
                    next_dof += 1
                elif kk == 2 and rs[k // 3] < RIGID:
                    rows.append({next_dof: 1.0})
                    springs.append((3 * n + 2, next_dof, rs[k // 3]))
                    next_dof += 1
                elif kk == 0:
                    rows.append({3 * n: c, 3 * n + 1: s})
                elif kk == 1:
                    rows.append({3 * n: -s, 3 * n + 1: c})
                else:
                    rows.append({3 * n + 2: 1.0})
            d["loc"] = rows
            d["springs"] = springs
        els.append(d)
    N = next_dof
    K = np.zeros((N, N))
    act = np.zeros(N, bool)
    act[:3 * nn] = active
    act[3 * nn:] = True
    for d in els:
        e = d["e"]
        i, j = e["n"]
        if d["loc"] is None:
            b = np.zeros(N)
            b[3 * i:3 * i + 2] = [-d["c"], -d["s"]]
            b[3 * j:3 * j + 2] = [d["c"], d["s"]]
            kk = e["k"] if e["t"] == "spring" else e["E"] * e["A"] / d["L"]
            K += kk * np.outer(b, b)
            d["b"], d["kk"] = b, kk
        else:
            M = np.zeros((6, N))
            for r, row in enumerate(d["loc"]):
                for dof, v in row.items():
                    M[r, dof] = v
            d["M"] = M
            d["k"] = _beam_k(e["E"], e["A"], e["I"], d["L"])
            K += M.T @ d["k"] @ M
            for a, bdof, ks in d["springs"]:
                K[a, a] += ks
                K[bdof, bdof] += ks
                K[a, bdof] -= ks
                K[bdof, a] -= ks
    return K, act, els, N


def _free(m, act, supp_id, N):
    fixed = np.zeros(N, bool)
    for sid, n, dofs in m["supp"]:
        if sid == supp_id:
            for dd in dofs:
                fixed[3 * n + dd] = True
    return np.where(act & ~fixed)[0]


def solve(m, supp_id, load_id):
    """-> (u [nn x 3], forces per element dict)"""
    K, act, els, N = _system(m)
    p = np.zeros(N)
    fl = [np.zeros(6) for _ in els]
    for ld in m["loads"]:
        if ld["sid"] != load_id:
            continue
        if ld["k"] == "P":
            n = ld["n"]
            p[3 * n:3 * n + 3] += ld.get("f", 1.0) * np.array(ld["v"], float)
        else:
            d = els[ld["el"]]
            if d["loc"] is None:  # pin-ended bar: carried to the ends by statics
                q1, q2 = (float(v) * ld.get("f", 1.0) for v in ld["q"])
                g = np.array([1.0, 0.0] if ld["dir"] == "x" else [0.0, 1.0])
                if ld["cs"] == "local":
                    g = np.array([d["c"] * g[0] - d["s"] * g[1], d["s"] * g[0] + d["c"] * g[1]])
                r2 = d["L"] * (q1 / 2 + (q2 - q1) / 3)
                r1 = d["L"] * (q1 + q2) / 2 - r2
                i, j = d["e"]["n"]
                p[3 * i:3 * i + 2] += r1 * g
                p[3 * j:3 * j + 2] += r2 * g
                fl[ld["el"]][[0, 3]] += [r1 * (g @ [d["c"], d["s"]]), r2 * (g @ [d["c"], d["s"]])]
                continue
            f = _beam_f(ld, d["L"], d["c"], d["s"])
            fl[ld["el"]] += f
            p += d["M"].T @ f
    free = _free(m, act, supp_id, N)
    u = np.zeros(N)
    if len(free):
        Kf = K[np.ix_(free, free)]
        D = np.sqrt(np.abs(np.diag(Kf)))
        if np.any(D <= 0):
            raise Singular()
        Ks = Kf / np.outer(D, D)
        if np.linalg.cond(Ks) > COND_MAX:
            raise Singular()
        u[free] = np.linalg.solve(Ks, p[free] / D) / D
    nn = len(m["nodes"])
    out = []
    for d, f in zip(els, fl):
        if d["loc"] is None:
            N_ = float(d["kk"] * (d["b"] @ u))
            out.append({"fx": [N_ + f[0], N_ - f[3]]})
        else:
            R = d["k"] @ (d["M"] @ u) - f
            out.append({"fx": [-R[0], R[3]], "fz": [R[1], -R[4]], "my": [-R[2], R[5]]})
    U = u[:3 * nn].reshape(nn, 3).copy()
    return U, out


def buckling_matrices(m, supp_id, load_id):
    U, forces = solve(m, supp_id, load_id)
    K, act, els, N = _system(m)
    G = np.zeros((N, N))
    for d, f in zip(els, forces):
        P = f["fx"][1]
        if d["loc"] is not None:
            G += d["M"].T @ _beam_kg(P, d["L"]) @ d["M"]
        else:
            i, j = d["e"]["n"]
            b = np.zeros(N)
            b[3 * i:3 * i + 2] = [d["s"], -d["c"]]
            b[3 * j:3 * j + 2] = [-d["s"], d["c"]]
            G += P / d["L"] * np.outer(b, b)
    free = _free(m, act, supp_id, N)
    return K, G, free, forces


def buckling(m, supp_id, load_id, k=None):
    """smallest positive load factors, ascending (dense solution)"""
    K, G, free, forces = buckling_matrices(m, supp_id, load_id)
    Kf, Gf = K[np.ix_(free, free)], G[np.ix_(free, free)]
    D = np.sqrt(np.diag(Kf))
    A, B = Kf / np.outer(D, D), Gf / np.outer(D, D)
    C = np.linalg.cholesky(A)
    Ci = np.linalg.inv(C)
    mu = np.linalg.eigvalsh(-(Ci @ B @ Ci.T))  # 1/lambda
    if not len(mu) or np.max(mu) <= 0:
        return np.array([]), forces
    mu = mu[mu > 1e-6 * np.max(np.abs(mu))]
    lam = np.sort(1 / mu)
    return (lam if k is None else lam[:k]), forces
