"""P19: wind actions of EN 1991-1-4 over complete grids with every breakpoint."""
import itertools
import math
from ..core import Family, product_cases, canon

Z0 = {0: (0.003, 1.0), 1: (0.01, 1.0), 2: (0.05, 2.0), 3: (0.3, 5.0), 4: (1.0, 10.0)}
NEAR = [1 - 1e-6, 1.0, 1 + 1e-6]


def lin(xs, ys, x):
    for (a, fa), (b, fb) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
        if a <= x <= b:
            return fa + (fb - fa) * (x - a) / (b - a)
    return ys[0] if x < xs[0] else ys[-1]


# ---------------------------------------------------------------- velocity and pressure
def vel_cases(tier):
    zs = sorted({b * f for b in (1.0, 2.0, 5.0, 10.0) for f in NEAR} | {0.0, 0.1, 0.5, 1.5, 3.0, 4.0, 7.0, 15.0, 25.0, 40.0, 70.0, 120.0, 200.0})
    if tier == "thorough":
        zs = sorted(set(zs) | {0.25 * i for i in range(801)})
    for cat in Z0:
        for z in zs:
            for v in (21.0, 22.0, 23.0, 26.0, 35.5):
                yield {"cat": cat, "z": z, "v": v}


def peak(cat, z, vb):
    z0, zmin = Z0[cat]
    ln = math.log(max(z, zmin) / z0)
    kr = 0.18 if cat == 0 else 0.19 * (z0 / 0.05) ** 0.07
    vm = vb * kr * ln
    return kr * ln, vm, 1 / ln, (1 + 7 / ln) * 0.625 * vm * vm


def run_vel(case, ctx):
    from metku.eurocodes.en1991 import en1991_1_4 as W
    cat, z, vb = case["cat"], case["z"], case["v"]
    cr, vm, iv, qp = peak(cat, z, vb)
    for cd, cs in ((1.0, 1.0), (0.85, 1.0), (1.0, 0.9), (0.85, 0.9)):
        ctx.eq(W.basic_wind_velocity(vb, cd, cs), vb * cd * cs, "basic", f"{case}: basic velocity", 1e-12)
    ctx.eq(W.terrain_roughness(z, cat), cr, "roughness", f"{case}: roughness factor", 1e-9)
    ctx.eq(W.mean_wind_velocity(vb, z, cat), vm, "mean", f"{case}: mean velocity", 1e-9)
    ctx.eq(W.turbulence_intensity(z, cat), iv, "turbulence", f"{case}: turbulence intensity", 1e-9)
    ctx.eq(W.peak_velocity_pressure(z, cat, vb), qp, "peak", f"{case}: peak velocity pressure", 1e-9)
    ctx.eq(W.basic_velocity_pressure(vb), 0.625 * vb * vb, "basic-pressure", f"{case}: basic velocity pressure", 1e-12)
    ctx.expect(W.peak_velocity_pressure(z * 1.01 + 0.01, cat, vb) >= W.peak_velocity_pressure(z, cat, vb) - 1e-9, "monotone", f"{case}: pressure decreases with height")
    for c in (-1.2, 0.0, 0.8):
        ctx.eq([W.wind_pressure_ext(qp, c), W.wind_pressure_int(qp, c)], [qp * c] * 2, "pressure", f"{case}: pressures", 1e-12)
    ctx.state((cat, z, vb))


# ---------------------------------------------------------------- walls
WALL = {"A": ([-1.2] * 3, [-1.4] * 3), "B": ([-0.8] * 3, [-1.1] * 3), "C": ([-0.5] * 3, [-0.5] * 3), "D": ([0.7, 0.8, 0.8], [1.0] * 3), "E": ([-0.3, -0.5, -0.7], [-0.3, -0.5, -0.7])}


def wall_cases(tier):
    dims = set()
    for d in (2.0, 5.0, 12.0, 30.0) if tier == "quick" else (1.0, 2.0, 3.0, 5.0, 8.0, 12.0, 20.0, 30.0, 50.0):
        for r in (0.1, 0.25, 0.5, 1.0, 2.0, 5.0, 7.0):
            for f in NEAR:
                h = d * r * f
                for b in (0.2, 1.0, 3.0, 8.0, 20.0, 72.0, d, 5 * d, 2 * h, 10 / h, 1 / h):
                    for g in NEAR if b in (d, 5 * d, 2 * h, 10 / h, 1 / h) else (1.0,):
                        dims.add((b * g, d, h))
    for b, d, hh in sorted(dims):
        for w in ("long", "short"):
            yield {"b": b, "d": d, "h": hh, "wind": w}


def run_wall(case, ctx):
    from metku.eurocodes.en1991 import en1991_1_4 as W
    b, d, h = case["b"], case["d"], case["h"]
    for qp in (0.5, 1.25):
        z = W.rect_building_wall_pressure(b, d, h, qp, "long") if case["wind"] == "long" else W.rect_building_wall_pressure(d, b, h, qp, "short")
        e = min(b, 2 * h)
        near = abs(e - d) < 1e-12 * d or abs(e - 5 * d) < 1e-12 * d
        want = {"D": b, "E": b}
        if e < d:
            want.update(A=e / 5, B=0.8 * e, C=d - e)
        elif e >= 5 * d:
            want.update(A=d, B=0.0, C=0.0)
        else:
            want.update(A=0.2 * e, B=d - 0.2 * e, C=0.0)
        got = {k: z[k]["length"] for k in z}
        ctx.expect(set(z) == set("ABCDE"), "zones", f"{case}: zones {sorted(z)}")
        for k in want:
            ctx.eq(got[k], want[k], "length", f"{case}: length of zone {k}", 1e-9, 1e-9)
        ctx.eq(got["A"] + got["B"] + got["C"], d, "covers", f"{case}: zones cover the side", 1e-9)
        A = b * h
        for k, (c10, c1) in WALL.items():
            t10, t1 = lin([0.25, 1.0, 5.0], c10, h / d), lin([0.25, 1.0, 5.0], c1, h / d)
            c = t10 if A >= 10 else t1 if A <= 1 else t1 - (t1 - t10) * math.log10(A)
            ctx.eq(z[k]["cpe"], c, "coefficient", f"{case}: coefficient of zone {k}", 1e-9, 1e-9)
            ctx.eq(z[k]["we"], qp * c, "zone-pressure", f"{case}: pressure of zone {k}", 1e-9, 1e-9)
    ctx.state((b, d, h))


# ---------------------------------------------------------------- flat roofs
def flat_cases(tier):
    for d in (1.0, 4.0, 10.0, 25.0, 80.0):
        for b in (1.5, 6.0, 20.0, 60.0):
            for h in (1.0, 3.0, 10.0, 30.0, b / 2, d, d / 2):
                for f in NEAR:
                    yield {"d": d, "b": b, "h": h * f}


def run_flat(case, ctx):
    from metku.eurocodes.en1991 import en1991_1_4 as W
    d, b, h = case["d"], case["b"], case["h"]
    e = min(b, 2 * h)
    if d < 0.1 * e:
        ctx.undefined += 1  # shorter than the edge zone
        return
    for qp in (0.4, 1.1):
        z = W.flat_roof_pressure(d, b, h, qp)
        want = {"F": (0.25 * e, 0.1 * e, -1.8), "G": (b - 0.5 * e, 0.1 * e, -1.2), "H": (b, min(0.4 * e, d - 0.1 * e), -0.7), "I": (b, max(d - 0.5 * e, 0.0), [0.2, -0.2])}
        ctx.expect(set(z) == set(want), "roof-zones", f"{case}: zones {sorted(z)}")
        for k, (l, w, c) in want.items():
            ctx.eq([z[k]["length"], z[k]["width"]], [l, w], "roof-size", f"{case}: size of zone {k}", 1e-9, 1e-9)
            ctx.eq(z[k]["cpe"], c, "roof-coefficient", f"{case}: coefficient of zone {k}", 1e-12, 1e-12)
            ctx.eq(z[k]["we"], [qp * v for v in c] if isinstance(c, list) else qp * c, "roof-pressure", f"{case}: pressure of zone {k}", 1e-12, 1e-12)
        area = 2 * z["F"]["length"] * z["F"]["width"] + sum(z[k]["length"] * z[k]["width"] for k in "GHI")
        ctx.eq(area, b * d, "roof-area", f"{case}: area of the zones", 1e-9)
    ctx.state((d, b, h))


# ---------------------------------------------------------------- coefficients of monopitch roofs
ANG = [5, 15, 30, 45, 60, 75]
MONO = {0: {"F": (([-1.7, -0.9, -0.5, 0.0], [-2.5, -2.0, -1.5, 0.0]), [0.0, 0.2, 0.7, 0.7, 0.7, 0.8]),
            "G": (([-1.2, -0.8, -0.5, 0.0], [-2.0, -1.5, -1.5, 0.0]), [0.0, 0.2, 0.7, 0.7, 0.7, 0.8]),
            "H": (([-0.6, -0.3, -0.2, 0.0], [-1.2, -0.3, -0.2, 0.0]), [0.0, 0.2, 0.4, 0.6, 0.7, 0.8])},
        180: {"F": ([-2.3, -2.5, -1.1, -0.6, -0.5, -0.5], [-2.5, -2.8, -2.3, -1.3, -1.0, -1.0]),
              "G": ([-1.3, -1.3, -0.8, -0.5, -0.5, -0.5], [-2.0, -2.0, -1.5, -0.5, -0.5, -0.5]),
              "H": ([-0.8, -0.9, -0.8, -0.7, -0.5, -0.5], [-1.2, -1.2, -0.8, -0.7, -0.5, -0.5])}}


def mono_cases(tier):
    step = 0.5 if tier == "quick" else 0.05
    n = int(75 / step)
    angs = sorted({5 + i * step for i in range(n + 1) if 5 + i * step <= 80} | {a * f for a in ANG for f in NEAR if a * f >= 5})
    for w in (0, 180):
        for a in angs:
            yield {"wind": w, "angle": a}


def run_mono(case, ctx):
    from metku.eurocodes.en1991 import en1991_1_4 as W
    a, w = case["angle"], case["wind"]
    p = W.ExternalPressureMonoRoof(w, a)
    for zone in "FGH":
        z = getattr(p, zone)
        for k, key in enumerate(("cpe10", "cpe1")):
            if w == 180:
                want = lin(ANG, MONO[180][zone][k], a)
            else:
                neg, pos = MONO[0][zone]
                want = lin(ANG, pos, a)
                if a < 60:
                    want = [lin([5, 15, 30, 45], neg[k], a), want]
            got = z[key]
            ctx.eq(got, want, "mono", f"{case}: {key} of zone {zone}", 1e-9, 1e-9)
    ctx.state((w, a))


def families(tier):
    return [
        Family("velocity", lambda: vel_cases(tier), run_vel, "terrain categories x heights with every minimum height and both neighbours x basic velocities", "complete product"),
        Family("walls", lambda: wall_cases(tier), run_wall, "plan dimensions and heights with every limit of zones, ratios and loaded area and both neighbours", "complete product"),
        Family("flat", lambda: flat_cases(tier), run_flat, "flat roofs: plan dimensions x heights", "complete product"),
        Family("monopitch", lambda: mono_cases(tier), run_mono, "monopitch roof coefficients: pitch grid with every tabulated angle and both neighbours x wind direction", "complete product"),
    ]
