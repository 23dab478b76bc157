"""Exact optima of small convex problems (no solver): active set enumeration and bisection of one multiplier."""
import itertools
import math
import numpy as np


def quadratic(D, p, rows, lb, ub):
    """min sum D (x-p)^2, rows [(a, '<'|'>'|'=', b)], bounds -> (f, x) or None (infeasible)"""
    n = len(p)
    D, p = np.asarray(D, float), np.asarray(p, float)
    cons = [(np.asarray(a, float), t, float(b)) for a, t, b in rows]
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1
        cons += [(e, "<", ub[i]), (e, ">", lb[i])]
    eq = [c for c in cons if c[1] == "="]
    iq = [c for c in cons if c[1] != "="]
    best = None
    for r in range(n + 1):
        for S in itertools.combinations(iq, r):
            act = eq + list(S)
            if act:
                A, b = np.array([c[0] for c in act]), np.array([c[2] for c in act])
                if len(act) > n + len(eq):
                    continue
                K = np.block([[2 * np.diag(D), A.T], [A, np.zeros((len(act), len(act)))]])
                sol, _, rank, _ = np.linalg.lstsq(K, np.r_[2 * D * p, b], rcond=None)
                if np.linalg.norm(K @ sol - np.r_[2 * D * p, b]) > 1e-9:
                    continue
                x = sol[:n]
            else:
                x = p
            if all((a @ x <= b + 1e-9) if t == "<" else (a @ x >= b - 1e-9) if t == ">" else abs(a @ x - b) < 1e-9 for a, t, b in cons):
                f = float(sum(D * (x - p) ** 2))
                if best is None or f < best[0] - 1e-13:
                    best = (f, x)
    return best


def sizing(c, a, b, lb, ub):
    """min c.x subject to sum a/x <= b -> (f, x) or None"""
    c, a, lb, ub = (np.asarray(v, float) for v in (c, a, lb, ub))
    if np.sum(a / ub) > b + 1e-12:
        return None
    X = lambda mu: np.clip(np.sqrt(mu * a / c), lb, ub)
    if np.sum(a / lb) <= b:
        return float(c @ lb), lb
    lo, hi = 0.0, 1.0
    while np.sum(a / X(hi)) > b and hi < 1e30:
        hi *= 2
    for _ in range(300):
        m = 0.5 * (lo + hi)
        if np.sum(a / X(m)) > b:
            lo = m
        else:
            hi = m
    x = X(hi)
    return float(c @ x), x
