"""P06: forces, displacements and utilisations reported by the members of a frame."""
import copy
import itertools
from ..core import Family, canon, histories, close
from ..ref import frame as RF
from ..drv import raami as D

TEMPL = {
    "beam": ([[0, 0], [6000, 0]], [(0, 1, "beam")], [0, 1]),
    "cont": ([[0, 0], [4000, 0], [9000, 0]], [(0, 1, "beam"), (1, 2, "beam")], [0, 1, 2]),
    "portal": ([[0, 0], [0, 4000], [6000, 4000], [6000, 0]], [(0, 1, "column"), (1, 2, "beam"), (3, 2, "column")], [0, 3]),
    "gable": ([[0, 0], [0, 4000], [3000, 5250], [6000, 4000], [6000, 0]], [(0, 1, "column"), (1, 2, "top_chord"), (3, 2, "beam"), (3, 4, "column")], [0, 4]),
    "braced": ([[0, 0], [0, 3000], [4000, 3000], [4000, 0]], [(0, 1, "column"), (1, 2, "beam"), (3, 2, "column"), (0, 2, "brace")], [0, 3]),
    "truss": ([[0, 0], [3000, 0], [6000, 0], [3000, 1250]], [(0, 1, "bottom_chord"), (1, 2, "bottom_chord"), (0, 3, "top_chord"), (3, 2, "top_chord"), (1, 3, "bar")], [0, 2]),
}
SECS = ["HEA 200", "IPE 300", "RHS 200 100 6"]
LOADS = {
    2: lambda nm, nn, types: [{"k": "L", "m": k, "q": [-4 - k, -4 + 2 * k], "dir": "y", "cs": "global", "lid": 2, "f": 1.0} for k in range(nm)],
    3: lambda nm, nn, types: [{"k": "P", "n": n, "v": [1e4, -5e3 * n, 1e6 if nm < 4 else 0], "lid": 3, "f": 1.5} for n in range(nn)],
    4: lambda nm, nn, types: [{"k": "L", "m": k, "q": [2, 3 + k], "dir": "xy"[k % 2], "cs": "local", "lid": 4, "f": 0.5} for k in range(nm)]
    + [{"k": "W", "m": 0, "q": [3, -1], "xdiv": 0.5, "dir": "y", "cs": "local", "lid": 4, "f": 2.0}],
}


def desc(t, nel, hinges=None, supp=("fix", "xy"), secs=SECS):
    nodes, mem, sn = TEMPL[t]
    d = {"nodes": copy.deepcopy(nodes), "members": [], "supp": []}
    for k, (i, j, typ) in enumerate(mem):
        d["members"].append({"n": [i, j], "sec": secs[k % len(secs)], "type": typ,
                             "nel": 1 if typ in ("bar", "brace") else nel, "hinges": list(hinges[k]) if hinges else [False, False]})
    for k, n in enumerate(sn):
        d["supp"].append([n, supp[k % len(supp)]])
    return d


def ledger(d, lids=(2, 3, 4)):
    nm, nn = len(d["members"]), len(d["nodes"])
    types = [m["type"] for m in d["members"]]
    out = []
    for l in lids:
        for e in LOADS[l](nm, nn, types):
            if e["k"] == "W" and d["members"][e["m"]]["nel"] % 2:
                e = dict(e, k="L")  # the step has to fall between elements
                e.pop("xdiv")
            out.append(e)
    return out


def absmax_ok(ctx, got, vals, key, what):
    """the design value is a value of greatest magnitude"""
    ctx.step()
    m = max(abs(v) for v in vals)
    if not (close(abs(got), m, 1e-9, 1e-9) and any(close(got, v, 1e-9, 1e-9) for v in vals)):
        ctx.fail(key, f"{what}: design value {got}, values {vals}")


def member_checks(ctx, fr, lids, what, design=True):
    for k, m in fr.members.items():
        for lid in lids:
            nf = m.nodal_forces[lid]
            for q, dct in (("N", m.NEd), ("Vz", m.VzEd), ("My", m.MyEd)):
                absmax_ok(ctx, float(dct[lid]), [float(v) for v in nf[q]], "design-" + q, f"{what}: member {k} case {lid} {q}")
        mx = m.get_max_forces(list(lids))
        for q in ("N", "Vz", "My"):
            allv = [float(v) for lid in lids for v in m.nodal_forces[lid][q]]
            for fn in (min, max):
                r = mx[f"{fn.__name__} {q}"]
                ctx.eq(float(r[q]), fn(allv), "max-forces", f"{what}: member {k} {fn.__name__} {q}", 1e-9, 1e-9)
                lid = r["load_id"]
                trip = [tuple(float(m.nodal_forces[lid][c][i]) for c in ("N", "Vz", "My")) for i in range(len(m.nodal_forces[lid]["N"]))]
                ctx.expect(tuple(float(r[c]) for c in ("N", "Vz", "My")) in trip, "max-forces-concurrent", f"{what}: member {k} {fn.__name__} {q}: forces not from one point of the member")


def util_checks(ctx, fr, d, lids, what):
    """utilisation of every member = utilisation of a member made for these forces only"""
    from metku.structures.steel.steel_member import SteelMember
    import math
    for k, md in enumerate(d["members"]):
        m = fr.members[k]
        (x1, y1), (x2, y2) = d["nodes"][md["n"][0]], d["nodes"][md["n"][1]]
        for lid in lids:
            s = SteelMember(D.section(md["sec"], md.get("fy", 355)), math.hypot(x2 - x1, y2 - y1), Lcr=list(md.get("lcr", [1.0, 1.0])), mtype=md["type"])
            nf = m.nodal_forces[lid]
            n = len(nf["N"])
            for i in range(n):
                s.add_section(ned=nf["N"][i], vzed=nf["Vz"][i], myed=nf["My"][i], loc=i / (n - 1))
            u = float(s.design(sway=False))
            ctx.eq(float(m.utilization[lid]), u, "utilization", f"{what}: member {k} case {lid} utilisation", 1e-6, 1e-9)


def run(case, ctx):
    d, lids = case["d"], case["lids"]
    led = ledger(d, lids)
    fr = D.build(d)
    for l in led:
        fr.add(D.make_load(fr, l))
    try:
        want = D.reference(d, fr, led, lids)
    except RF.Singular:
        ctx.undefined += 1
        return
    fr.generate_fem()
    if case["mode"] == "all":
        fr.structural_analysis("all", case["meth"], design=True)
    else:
        for lid in reversed(lids):
            fr.structural_analysis(lid, case["meth"], design=True)
    for lid in lids:
        D.compare(ctx, fr, want[lid], lid, "frame", case["mode"])
        ctx.state((lid, canon([r["My"] for r in want[lid]], 4)))
    member_checks(ctx, fr, lids, case["mode"])
    util_checks(ctx, fr, d, lids, case["mode"])
    # the mesh can be generated and analysed again with the same result
    fr.generate_fem()
    fr.structural_analysis("all", "ZERO" if case["meth"] == "REM" else "REM", design=False)
    for lid in lids:
        D.compare(ctx, fr, want[lid], lid, "again", "meshed again")


def program_cases(deep):
    H = [(False, False), (True, False), (False, True), (True, True)]
    for t, (nodes, mem, sn) in TEMPL.items():
        nm = len(mem)
        nels = (1, 2, 3, 4)
        hs = itertools.product(H, repeat=nm) if nm <= (4 if deep else 3) else \
            [tuple(H[a] if i == j else H[b] for i in range(nm)) for j in range(nm) for a in range(4) for b in (0, 1)]
        for hinges in hs:
            for nel in nels:
                for supp in (("fix", "xy"), ("xy", "y"), ("fix", "x"), ("xy", "xy")):
                    yield {"d": desc(t, nel, hinges, supp), "lids": [2, 3, 4], "meth": "REM" if (nel + len(supp[1])) % 2 else "ZERO",
                           "mode": "all" if nel % 2 else "single"}


OPS = ["hinge0", "hinge1", "sec0", "sec1", "rot", "mat", "moveA", "moveB", "load", "lcr", "sym", "gen", "one", "all"]


def run_hist(case, ctx):
    d = desc(case["t"], case["nel"], None, ("fix", "xy"))
    fr = D.build(d)
    led = ledger(d, (2, 3))
    for l in led:
        fr.add(D.make_load(fr, l))
    fr.generate_fem()
    dirty = False
    pair = False
    for op in list(case["ops"]) + ["all"]:
        if op in ("hinge0", "hinge1"):
            k, e = (1, 0) if op == "hinge0" else (0, 1)
            fr.members[k].add_hinge(e)
            d["members"][k]["hinges"][e] = True
            dirty = True
        elif op in ("sec0", "sec1"):
            k = int(op[-1])
            new = "HEB 220" if d["members"][k]["sec"] != "HEB 220" else "SHS 150 8"
            fr.members[k].cross_section = D.section(new)
            d["members"][k].update(sec=new, fy=355)
            if pair and k == 0:  # members 0 and 2 are mirror images of each other
                d["members"][2].update(sec=new, fy=355)
        elif op == "rot":
            new = "RHS 200 100 5" if d["members"][1]["sec"] != "RHS 200 100 5" else "RHS 100 200 5"
            fr.members[1].cross_section = D.section(new)
            d["members"][1].update(sec=new, fy=355)
        elif op == "mat":
            fr.members[1].material = "S235"
            d["members"][1]["fy"] = 235
        elif op == "sym":
            fr.symmetry()
            pair = True
        elif op == "moveA":
            d["nodes"][1] = [d["nodes"][1][0] - 300.5, d["nodes"][1][1] + 200.25]
            fr.nodes[1].x, fr.nodes[1].y = d["nodes"][1]
        elif op == "moveB":
            d["nodes"][-1][1] -= 500
            fr.nodes[-1].y = d["nodes"][-1][1]
        elif op == "load":
            l = {"k": "L", "m": 1, "q": [-1, -2], "dir": "y", "cs": "global", "lid": 2, "f": 1.0}
            fr.add(D.make_load(fr, l))
            led.append(l)
            dirty = True
        elif op == "lcr":
            d["members"][0]["lcr"] = [2.0, 0.5]
            fr.members[0].lcr = [2.0, 0.5]
        elif op == "gen":
            fr.generate_fem()
            dirty = False
        else:
            if dirty:
                fr.generate_fem()
                dirty = False
            lids = [2] if op == "one" else [2, 3]
            try:
                want = D.reference(d, fr, led, lids)
            except RF.Singular:
                ctx.undefined += 1
                return
            fr.structural_analysis(2 if op == "one" else "all", "REM", design=True)
            for lid in lids:
                D.compare(ctx, fr, want[lid], lid, "history", "after " + op)
                ctx.state((lid, canon([r["My"] for r in want[lid]], 4)))
            member_checks(ctx, fr, lids, "after " + op)
            util_checks(ctx, fr, d, lids, "after " + op)


SNODES = [[0, 0], [10, 0], [2, 4], [8, 4], [5, 5], [5, 0], [1, 7]]  # two mirror pairs, two nodes on the axis, one without image
SMIRR = {0: 1, 1: 0, 2: 3, 3: 2, 4: 4, 5: 5, 6: None}
SMEM = [(0, 2), (3, 1), (2, 4), (4, 3), (5, 4), (0, 1), (2, 3), (0, 4), (1, 4), (6, 2), (6, 4), (0, 3), (2, 1)]


def sym_cases(deep):
    for k in (1, 2, 3, 4) if deep else (1, 2, 3):
        for sub in itertools.permutations(range(len(SMEM)), k) if k < 3 else itertools.combinations(range(len(SMEM)), k):
            for shift in (0, 2500):
                yield {"mem": list(sub), "shift": shift, "k": k}


def run_sym(case, ctx):
    """mirror images: of every pair of members (and only those) the sections are changed together"""
    xy = [[1000 * x + case["shift"], 1000 * y] for x, y in SNODES[:6 if all(6 not in SMEM[i] for i in case["mem"]) else 7]]
    mem = [SMEM[i] for i in case["mem"]]
    fr = D.build({"nodes": xy, "members": [{"n": list(m), "sec": "SHS 150 8"} for m in mem], "supp": []})
    fr.symmetry()
    if case["shift"]:
        fr.symmetry()  # nothing new the second time
    image = []
    for a, b in mem:
        ia, ib = SMIRR[a], SMIRR[b]
        other = [j for j, m in enumerate(mem) if None not in (ia, ib) and set(m) == {ia, ib} and set(m) != {a, b}]
        image.append(other[0] if other else None)
    cur = ["SHS 150 8"] * len(mem)
    for k, new in zip(list(range(len(mem))) + [0], ["HEB 220", "IPE 300", "RHS 200 100 5", "HEA 200", "SHS 100 5"]):
        fr.members[k].cross_section = D.section(new)
        cur[k] = new
        if image[k] is not None:
            cur[image[k]] = new
        for j, m in fr.members.items():
            s = m.cross_section
            ctx.expect(abs(s.A - D.section(cur[j]).A) < 1e-9 and m.member.profile is s, "mirror",
                       f"{case}: after section {new} for member {mem[k]}: member {mem[j]} has {s}, expected {cur[j]}")
    ctx.state((tuple(case["mem"]), canon(image)))


def enabled(w, a):
    if a == "gen":
        return bool(w) and w[-1] not in ("gen", "one", "all")
    if a in ("one", "all"):
        return not w or w[-1] not in ("one", "all")
    if a == "sym" and ("moveA" in w or "moveB" in w):
        return False
    if a in ("hinge0", "hinge1", "lcr", "sym"):
        return a not in w
    return True


def hist_cases(depth):
    for t, nel in (("portal", 2), ("cont", 3)):
        ops = OPS if t == "portal" else [o for o in OPS if o != "sym"]
        for w in histories(ops, depth, enabled, 1):
            yield {"t": t, "nel": nel, "ops": w}


def families(tier):
    deep = tier == "thorough"
    d = 4 if deep else 3
    return [Family("programs", lambda: program_cases(deep), run, "6 frame shapes x hinge pattern of every member x mesh density x supports; 3 load cases; single/all analyses and both support treatments", "<= 5 members, 1-4 elements"),
            Family("symmetry", lambda: sym_cases(deep), run_sym, "all sets of at most 3 (4) of 13 members between mirror pairs, axis nodes and an unpaired node (ordered pairs); a section change of every member", "13 members, 7 nodes"),
            Family("histories", lambda: hist_cases(d), run_hist, "all words over hinges, section changes, node moves, buckling lengths, new loads, meshing, analyses on two frames", f"depth {d}")]
