"""Exact optimum of small bounded mixed linear problems, by complete enumeration.

discrete variables: every combination of their values; continuous variables (at most 3):
all basic points (vertices) of the remaining polytope, in rational arithmetic.
"""
import itertools
from fractions import Fraction as F


def fr(x):
    return F(str(x))


def _solve(A, b):
    n = len(A)
    M = [list(r) + [v] for r, v in zip(A, b)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [v / d for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [u - f * v for u, v in zip(M[r], M[c])]
    return [M[r][n] for r in range(n)]


def sat(cons, x):
    for a, s, b in cons:
        v = sum(p * q for p, q in zip(a, x))
        if (s == "<" and v > b) or (s == ">" and v < b) or (s == "=" and v != b):
            return False
    return True


def vertices(bounds, cons):
    """all basic feasible points of  {lb<=x<=ub, cons}"""
    n = len(bounds)
    if n == 0:
        if sat(cons, []):
            yield []
        return
    rows = []
    for i, (l, u) in enumerate(bounds):
        e = [F(0)] * n
        e[i] = F(1)
        rows.append((e, l))
        if u != l:
            rows.append((list(e), u))
    for a, s, b in cons:
        if any(v != 0 for v in a):
            rows.append((a, b))
    seen = set()
    for comb in itertools.combinations(rows, n):
        x = _solve([r[0] for r in comb], [r[1] for r in comb])
        if x is None or tuple(x) in seen:
            continue
        seen.add(tuple(x))
        if all(l <= v <= u for v, (l, u) in zip(x, bounds)) and sat(cons, x):
            yield x


def optimum(varz, c, cons, sense, lock=()):
    """varz: list of ("c", lb, ub) or ("d", [values]); -> (value or None, a minimiser)"""
    lock = {i: fr(v) for i, v in lock}
    n = len(varz)
    c = [fr(v) for v in c]
    cons = [([fr(v) for v in a], s, fr(b)) for a, s, b in cons]
    dis = [i for i in range(n) if i in lock or varz[i][0] == "d"]
    con = [i for i in range(n) if i not in dis]
    best, arg = None, None
    for vals in itertools.product(*[[lock[i]] if i in lock else [fr(v) for v in varz[i][1]] for i in dis]):
        sub = dict(zip(dis, vals))
        cc = [([a[i] for i in con], s, b - sum(a[i] * sub[i] for i in dis)) for a, s, b in cons]
        if any(not any(a) and not sat([(a, s, b)], [0] * len(a)) for a, s, b in cc):
            continue
        for y in vertices([(fr(varz[i][1]), fr(varz[i][2])) for i in con], cc):
            x = [None] * n
            for i, v in sub.items():
                x[i] = v
            for i, v in zip(con, y):
                x[i] = v
            f = sum(p * q for p, q in zip(c, x))
            if best is None or (f < best if sense == "MIN" else f > best):
                best, arg = f, x
    return best, arg
