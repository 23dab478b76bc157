"""Cross-section properties by integration over the outline (Green's theorem), used as the
reference for sections.  An outline is a closed polygon; arcs are replaced by fine polylines."""
import math

NARC = 256


def arc(cx, cy, r, a0, a1, n=NARC):
    """points of an arc; the radius is adjusted so that the sector area is exact"""
    if r == 0:
        return [(cx, cy)]
    d = (a1 - a0) / n
    rr = r * math.sqrt(abs(d) / math.sin(abs(d)))
    return [(cx + rr * math.cos(a0 + k * d), cy + rr * math.sin(a0 + k * d)) for k in range(n + 1)]


def rounded(h, b, r):
    q = math.pi / 2
    return (arc(b / 2 - r, h / 2 - r, r, 0, q) + arc(-b / 2 + r, h / 2 - r, r, q, 2 * q)
            + arc(-b / 2 + r, -h / 2 + r, r, 2 * q, 3 * q) + arc(b / 2 - r, -h / 2 + r, r, 3 * q, 4 * q))


def ishape(h, bt, bb, tt, tb, tw, r=0.0):
    """counter-clockwise, y up, bottom at 0"""
    q = math.pi / 2
    p = [(-bb / 2, 0), (bb / 2, 0), (bb / 2, tb)]
    p += arc(tw / 2 + r, tb + r, r, 3 * q, 2 * q)
    p += arc(tw / 2 + r, h - tt - r, r, 2 * q, q)
    p += [(bt / 2, h - tt), (bt / 2, h), (-bt / 2, h), (-bt / 2, h - tt)]
    p += arc(-tw / 2 - r, h - tt - r, r, q, 0)
    p += arc(-tw / 2 - r, tb + r, r, 0, -q)
    p += [(-bb / 2, tb)]
    return p


def moments(poly):
    A = Sx = Sy = Ixx = Iyy = 0.0
    n = len(poly)
    for k in range(n):
        x0, y0 = poly[k]
        x1, y1 = poly[(k + 1) % n]
        c = x0 * y1 - x1 * y0
        A += c / 2
        Sy += c * (x0 + x1) / 6
        Sx += c * (y0 + y1) / 6
        Ixx += c * (y0 * y0 + y0 * y1 + y1 * y1) / 12
        Iyy += c * (x0 * x0 + x0 * x1 + x1 * x1) / 12
    if A < 0:
        A, Sx, Sy, Ixx, Iyy = -A, -Sx, -Sy, -Ixx, -Iyy
    return A, Sx, Sy, Ixx, Iyy


def clip(poly, y, above=True):
    s = 1 if above else -1
    out = []
    n = len(poly)
    for k in range(n):
        p, q = poly[k], poly[(k + 1) % n]
        dp, dq = s * (p[1] - y), s * (q[1] - y)
        if dp >= 0:
            out.append(p)
        if (dp > 0 > dq) or (dp < 0 < dq):
            t = dp / (dp - dq)
            out.append((p[0] + t * (q[0] - p[0]), y))
    return out


def length(poly):
    n = len(poly)
    return sum(math.dist(poly[k], poly[(k + 1) % n]) for k in range(n))


class Geom:
    def __init__(self, outers, holes=()):
        self.parts = [(p, 1) for p in outers] + [(p, -1) for p in holes]

    def sums(self, parts=None):
        tot = [0.0] * 5
        for p, s in (parts or self.parts):
            if len(p) >= 3:
                tot = [a + s * b for a, b in zip(tot, moments(p))]
        return tot

    def flip(self):
        g = Geom([])
        g.parts = [([(y, x) for x, y in p], s) for p, s in self.parts]
        return g

    def axis(self):
        """A, centroid, I, Wel, Wpl about the horizontal axis and the extreme ordinates"""
        A, S, _, I, _ = self.sums()
        yc = S / A
        Ic = I - A * yc * yc
        ys = [y for p, s in self.parts if s > 0 for _, y in p]
        lo, hi = min(ys), max(ys)
        Wel = Ic / max(hi - yc, yc - lo)
        a, b = lo, hi
        for _ in range(100):
            m = 0.5 * (a + b)
            up = self.sums([(clip(p, m), s) for p, s in self.parts])
            if up[0] > A / 2:
                a = m
            else:
                b = m
        m = 0.5 * (a + b)
        up = self.sums([(clip(p, m), s) for p, s in self.parts])
        dn = self.sums([(clip(p, m, False), s) for p, s in self.parts])
        Wpl = (up[1] - up[0] * m) + (dn[0] * m - dn[1])
        return {"A": A, "yc": yc, "I": Ic, "Wel": Wel, "Wpl": Wpl, "ypl": m, "lo": lo, "hi": hi}


_cache = {}


def props(kind, *dims):
    """(A, Au, [Iy, Iz], [Wely, Welz], [Wply, Wplz], z_elastic, z_plastic)"""
    key = (kind,) + dims
    if key in _cache:
        return _cache[key]
    if kind == "RHS":
        H, B, T, R = dims
        out = [rounded(H, B, R)]
        g = Geom(out, [rounded(H - 2 * T, B - 2 * T, R - T)])
        Au = 2 * (H + B) - 8 * R + 2 * math.pi * R
    elif kind == "CHS":
        D, T = dims
        g = Geom([rounded(D, D, D / 2)], [rounded(D - 2 * T, D - 2 * T, D / 2 - T)])
        Au = math.pi * D
    elif kind == "I":
        h, b, tf, tw, r = dims
        g = Geom([ishape(h, b, b, tf, tf, tw, r)])
        Au = length(g.parts[0][0])
    elif kind == "WI":
        h, bt, bb, tt, tb, tw = dims
        g = Geom([ishape(h, bt, bb, tt, tb, tw)])
        Au = length(g.parts[0][0])
    elif kind == "WQ":
        h, tw, bt, bb, tt, tb = dims
        box = lambda x0, x1, y0, y1: [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        g = Geom([box(-bb / 2, bb / 2, 0, tb), box(-bt / 2 - tw, bt / 2 + tw, tb, tb + h)], [box(-bt / 2, bt / 2, tb, tb + h - tt)])
        Au = 2 * bb + 2 * tb - (bt + 2 * tw) + 2 * h + bt + 2 * tw
    a, b_ = g.axis(), g.flip().axis()
    r = {"A": a["A"], "Au": Au, "I": [a["I"], b_["I"]], "Wel": [a["Wel"], b_["Wel"]], "Wpl": [a["Wpl"], b_["Wpl"]],
         "zel": a["yc"] - a["lo"], "zpl": a["ypl"] - a["lo"]}
    _cache[key] = r
    return r
