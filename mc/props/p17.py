"""P17: profile selection of members, symmetric pairs, groups and whole frames."""
import itertools
import math
from ..core import Family, canon
from ..drv import raami as D
from ..drv import sections as S
from ..drv import catalog as C
from ..ref import ec3 as R
from ..ref import frame as RF

FAMS = ["IPE", "HEA", "HEB", "RHS", "SHS", "CHS"]
_REF = {}


def ref(kind, d, fy):
    k = (kind, tuple(sorted(d.items())), fy)
    if k not in _REF:
        _REF[k] = S.closed(kind, dict(d, fy=fy))
    return _REF[k]


def comp_class(kind, d, p):
    return R.section_class(kind, p, d, -1e3, 0.0)


_LIST = {}


def profiles(fam):
    """the list a search goes through; RHS: at least 3 mm, class 3 in compression (as S355)"""
    if fam not in _LIST:
        out = []
        for n, kind, d in C.family(fam):
            if fam == "RHS" and (d["T"] < 3.0 or comp_class(kind, d, ref(kind, d, "S355"))[0] > 3):
                continue
            out.append((n, kind, d))
        _LIST[fam] = out
    return _LIST[fam]


def util(kind, d, fy, L, lcr, sway, nf):
    """utilisation of one member in one load case; None when too close to a class limit to tell"""
    n = len(nf["N"])
    F = [(i / (n - 1), float(nf["N"][i]), float(nf["My"][i]), float(nf["Vz"][i])) for i in range(n)]
    p = ref(kind, d, fy)
    r = R.member(kind, p, d, L, lcr, F, sway=sway, G=80769.0)
    if r["near"] or r["class"] == 4 or any(c == 4 for c, _ in r["sections"]):
        return None
    return r["design"]


def adequate(kind, d, fy, members, opt):
    """True / False / None (too close to a limit to be decided).  members: [(L, lcr, sway, {lid: forces})]"""
    b = C.width(kind, d)
    if b < opt.get("bmin", 10) or b > opt.get("bmax", 1e5):
        return False
    p = ref(kind, d, fy)
    c, near = comp_class(kind, d, p)
    if near:
        return None
    if c > opt.get("sec_class", 3):
        return False
    lim = opt.get("max_slenderness", 5.0)
    und = False
    for L, lcr, sway, cases in members:
        lam = R.member(kind, p, d, L, lcr, [], G=80769.0)["lam"]
        for x in lam:
            if abs(x / lim - 1) < 1e-3:
                und = True
            elif x > lim:
                return False
    lim = opt.get("max_utility", 1.0)
    for L, lcr, sway, cases in members:
        for nf in cases.values():
            u = util(kind, d, fy, L, lcr, sway, nf)
            if u is None or abs(u / lim - 1) < 2e-3:
                und = True
            elif u > lim:
                return False
    return None if und else True


def first(fam, fy, members, opt):
    """-> (name, kind, dims), 'none' or None (undecidable)"""
    for n, kind, d in profiles(fam):
        a = adequate(kind, d, fy, members, opt)
        if a is None:
            return None
        if a:
            return n, kind, d
    return "none"


# ---------------------------------------------------------------- single members
STRUCT = {
    # name: (nodes, members, supports)
    "column": ([[0, 0], [0, 4000]], [(0, 1, "column")], [[0, "fix"]]),
    "beam": ([[0, 0], [6000, 0]], [(0, 1, "beam")], [[0, "xy"], [1, "y"]]),
    "bar": ([[0, 0], [3000, 4000]], [(0, 1, "brace")], [[0, "xy"], [1, "x"]]),
}
START = {"IPE": "IPE 200", "HEA": "HEA 160", "HEB": "HEB 140", "RHS": "RHS 150 100 5", "SHS": "SHS 120 5", "CHS": "CHS 168.3 5"}


def chs_section(fr, m, key):
    from metku.sections.steel.CHS import CHS
    t, a, b = key.split()
    return CHS(float(a), float(b), "S355")


def section(key):
    if key.startswith("CHS"):
        from metku.sections.steel.CHS import CHS
        _, a, b = key.split()
        return CHS(float(a), float(b), "S355")
    return D.section(key)


def load_sets(st):
    if st == "column":
        return [[{"k": "P", "lid": 2, "n": 1, "v": [0, -q, 0]}, {"k": "P", "lid": 3, "n": 1, "v": [h, -0.3 * q, 0]}]
                for q, h in ((2e4, 5e2), (3e5, 1e3), (1e5, 8e3), (9e5, 1.5e4))] + [[{"k": "P", "lid": 2, "n": 1, "v": [-2e3, 4e5, 0]}]]
    if st == "beam":
        return [[{"k": "L", "lid": 2, "m": 0, "q": [-q, -q], "dir": "y", "cs": "global"}, {"k": "P", "lid": 3, "n": 1, "v": [n, 0, 0]}]
                for q, n in ((2, -1e4), (8, -2e5), (15, 4e5), (30, -6e5))] + [[{"k": "L", "lid": 2, "m": 0, "q": [-3, -12], "dir": "y", "cs": "global"}]]
    return [[{"k": "P", "lid": 2, "n": 1, "v": [0, -q, 0]}, {"k": "P", "lid": 3, "n": 1, "v": [0, 0.8 * q, 0]}] for q in (1e4, 1e5, 5e5)]


OPTS = [{}, {"max_utility": 0.7}, {"bmin": 140}, {"bmax": 130}, {"max_slenderness": 1.2}, {"sec_class": 1}, {"sec_class": 2, "max_utility": 0.85}, {"material": "S235"}, {"material": "S460M", "bmin": 90}]


def single_cases(tier):
    n = 0
    for st in STRUCT:
        for k in range(len(load_sets(st))):
            for fam in FAMS:
                for o in OPTS:
                    for lcr in ([1.0, 1.0], [2.0, 0.7]):
                        n += 1
                        if tier == "quick" and ((k + len(fam) + len(o)) % 2 and lcr[0] == 2.0 or fam == "RHS" and n % 5):
                            continue  # the list of rectangular hollow sections is long
                        yield {"st": st, "load": k, "fam": fam, "opt": o, "lcr": lcr, "cur": (k + len(o)) % 2 == 0, "sway": k % 3 == 2}


def build(nodes, members, supp, secs, loads, lcr, sway, nel):
    d = {"nodes": nodes, "members": [{"n": [i, j], "sec": "HEA 200", "type": t, "nel": 1 if t in ("bar", "brace") else nel, "lcr": lcr} for i, j, t in members], "supp": supp}
    fr = D.build(d)
    for k, m in fr.members.items():
        m.cross_section = section(secs[k])
        m.sway = sway
    for l in loads:
        fr.add(D.make_load(fr, l))
    fr.generate_fem()
    return fr, d


def length(d, k):
    (i, j) = d["members"][k]["n"]
    return math.dist(d["nodes"][i], d["nodes"][j])


def cases_of(m, lids):
    return {l: {q: [float(v) for v in m.nodal_forces[l][q]] for q in ("N", "Vz", "My")} for l in lids}


def same(s, kind, d):
    g = C.dims_of(s)
    return all(abs(g.get(k, -1) - v) < 1e-9 for k, v in d.items())


def report(ctx, m, kind, d, fy, mem, what, lim):
    """the member's section, steel and utilisations are those of the selected profile"""
    ctx.expect(same(m.cross_section, kind, d) and m.member.profile is m.cross_section, "profile", f"{what}: profile {C.dims_of(m.cross_section)}, expected {d}")
    ctx.expect(abs(m.cross_section.fy - S.fyof(fy)) < 1e-9, "steel", f"{what}: yield strength {m.cross_section.fy}, asked for {fy}")
    for lid, nf in mem[3].items():
        u = util(kind, d, fy, mem[0], mem[1], mem[2], nf)
        if u is not None:
            ctx.eq(float(m.utilization[lid]), u, "utilisation", f"{what}: utilisation in load case {lid}", 3e-3, 1e-6)


def run_single(case, ctx):
    nodes, members, supp = STRUCT[case["st"]]
    loads = load_sets(case["st"])[case["load"]]
    fam, opt = case["fam"], dict(case["opt"])
    fr, d = build(nodes, members, supp, [START[fam] if case["cur"] else "IPE 220"], loads, case["lcr"], case["sway"], 4)
    lids = sorted({l["lid"] for l in loads})
    fr.structural_analysis("all", "REM", design=True)
    m = fr.members[0]
    fy = opt.get("material", "S355")
    mem = (length(d, 0), case["lcr"], case["sway"], cases_of(m, lids))
    want = first(fam, fy, [mem], opt)
    if want is None or want == "none":
        ctx.undefined += 1
        return
    n, kind, dd = want
    before = C.dims_of(m.cross_section)
    changed = m.optimum_design("CURRENT" if case["cur"] else fam, **opt)
    what = f"{case} -> {n}"
    report(ctx, m, kind, dd, fy, mem, what, opt.get("max_utility", 1.0))
    ctx.expect(bool(changed) == (not all(abs(before.get(k, -1) - v) < 1e-9 for k, v in dd.items())), "changed", f"{what}: reported change {changed}, profile before {before}")
    again = m.optimum_design("CURRENT", **opt)
    ctx.expect(not again and same(m.cross_section, kind, dd), "repeat", f"{what}: repeating the search changed the profile to {C.dims_of(m.cross_section)}")
    ctx.state((fam, n, canon(opt), case["st"]))


# ---------------------------------------------------------------- groups and mirror images
def group_cases(tier):
    for fam in FAMS:
        for o in OPTS:
            for how in ("group", "sym"):
                for k in range(3):
                    if tier == "quick" and fam == "RHS" and (k + len(o) + len(how)) % 3:
                        continue
                    yield {"fam": fam, "opt": o, "how": how, "load": k}


PORTAL = ([[0, 0], [0, 3500], [6000, 3500], [6000, 0]], [(0, 1, "column"), (1, 2, "beam"), (3, 2, "column")], [[0, "fix"], [3, "fix"]])


def portal_loads(k):
    q, h = [(4, 2e3), (12, 3e4), (10, -6e4)][k]
    return [{"k": "L", "lid": 2, "m": 1, "q": [-q, -q], "dir": "y", "cs": "global"}, {"k": "P", "lid": 3, "n": 1, "v": [h, -1e4, 0]},
            {"k": "P", "lid": 3, "n": 2, "v": [0, -12e4, 0]}]


def run_group(case, ctx):
    from metku.raami.frame_member import MemberGroup
    fam, opt = case["fam"], dict(case["opt"])
    fr, d = build(*PORTAL, ["HEA 180", "IPE 300", "HEA 180"], portal_loads(case["load"]), [1.0, 1.0], False, 4)
    lids = [2, 3]
    ks = [0, 2] if case["how"] == "sym" else [0, 1]
    if case["how"] == "sym":
        fr.symmetry()
    fr.structural_analysis("all", "REM", design=True)
    mems = {k: (length(d, k), [1.0, 1.0], False, cases_of(fr.members[k], lids)) for k in (0, 1, 2)}
    fy = opt.get("material", "S355")
    want = first(fam, fy, [mems[k] for k in ks], opt)
    if want is None or want == "none":
        ctx.undefined += 1
        return
    n, kind, dd = want
    other = [k for k in (0, 1, 2) if k not in ks][0]
    keep = (C.dims_of(fr.members[other].cross_section), fr.members[other].cross_section.fy)
    if case["how"] == "sym":
        fr.members[0].optimum_design(fam, **opt)
    else:
        g = MemberGroup([fr.members[0]])
        g.add_member(fr.members[1])
        g.optimum_design(fam, **opt)
        ctx.expect(same(g.cross_section, kind, dd), "group-profile", f"{case}: profile of the group {C.dims_of(g.cross_section)}, expected {n}")
        for lid in lids:
            ctx.eq(float(g.utilization[lid]), max(float(fr.members[k].utilization[lid]) for k in ks), "group-utilisation", f"{case}: utilisation of the group", 1e-9)
    for k in ks:
        report(ctx, fr.members[k], kind, dd, fy, mems[k], f"{case} member {k} -> {n}", opt.get("max_utility", 1.0))
    ctx.expect((C.dims_of(fr.members[other].cross_section), fr.members[other].cross_section.fy) == keep, "other-member", f"{case}: profile of member {other} changed as well")
    ctx.state((fam, n, canon(opt), case["how"]))


# ---------------------------------------------------------------- whole frames
def frame_cases(tier):
    fams = ["IPE", "HEA", "HEB", "SHS", "RHS", "CURRENT"]
    for fam in fams:
        for k in range(3):
            for g in ("none", "group01", "group02", "all"):
                for nel in ((2, 4) if tier == "thorough" else (4,)):
                    yield {"fam": fam, "load": k, "groups": g, "nel": nel}


GROUPS = {"none": [[0], [1], [2]], "group01": [[0, 1], [2]], "group02": [[0, 2], [1]], "all": [[0, 1, 2]]}


def fam_of(case, k):
    return case["fam"] if case["fam"] != "CURRENT" else ["HEA", "IPE", "SHS"][k]


def stand_in(secs):
    """what the reference mesh needs of a frame: areas and second moments of the members"""
    class M:
        pass
    fr = M()
    fr.members = {}
    for k, (kind, dd) in enumerate(secs):
        m = M()
        m.cross_section = M()
        p = ref(kind, dd, "S355")
        m.cross_section.A, m.cross_section.I = p["A"], p["I"]
        fr.members[k] = m
    return fr


def kind_of(fam):
    return fam if fam in ("RHS", "SHS", "CHS") else "I"


def run_frame(case, ctx):
    """after the selection of a whole frame: the profile of every group is the first adequate one for the forces of the
    frame as it then stands (own analysis), unless some step of the way had no adequate profile"""
    from metku.raami.frame_member import MemberGroup
    nodes, members, supp = PORTAL
    loads = portal_loads(case["load"])
    fr, d = build(nodes, members, supp, ["HEA 180", "IPE 300", "SHS 160 6"], loads, [1.0, 1.0], False, case["nel"])
    for i, g in enumerate(GROUPS[case["groups"]]):
        if len(g) > 1:
            fr.member_groups[f"g{i}"] = MemberGroup([fr.members[k] for k in g])
    rounds = []
    inner = fr.structural_analysis
    fr.structural_analysis = lambda *a, **k: (rounds.append(1), inner(*a, **k))[1]
    fr.optimize_members(case["fam"])
    secs = [None] * 3
    for g in GROUPS[case["groups"]]:
        kd = kind_of(fam_of(case, g[0]))
        for k in g:
            dims = C.dims_of(fr.members[k].cross_section)
            if kd == "SHS":
                dims.pop("B", None)
            secs[k] = (kd, dims)
    res = D.reference({"nodes": nodes, "members": [{"n": [i, j], "nel": case["nel"], "type": t} for i, j, t in members], "supp": supp}, stand_in(secs), loads, [2, 3])
    for g in GROUPS[case["groups"]]:
        mems = [(length(d, k), [1.0, 1.0], False, {l: res[l][k] for l in (2, 3)}) for k in g]
        w = first(fam_of(case, g[0]), "S355", mems, {})
        if w is None or w == "none" or len(rounds) >= 9:
            ctx.undefined += 1
            continue
        for k in g:
            ctx.expect(same(fr.members[k].cross_section, w[1], w[2]), "frame-profile", f"{case}: member {k} has {C.dims_of(fr.members[k].cross_section)}, but {w[0]} is the first adequate profile for the forces in this frame")
            report(ctx, fr.members[k], *secs[k], "S355", mems[g.index(k)], f"{case} member {k}", 1.0)
    ctx.state((case["fam"], case["groups"], canon([x[1] for x in secs])))


# ---------------------------------------------------------------- detection of mirror images
PTS = [[0, 0], [4000, 0], [0, 3000], [4000, 3000], [2000, 3000], [2000, 0], [1000, 3000], [3000, 1500]]
EDGES = [(0, 2), (3, 1), (2, 3), (2, 4), (4, 3), (0, 4), (1, 4), (4, 5), (0, 5), (5, 1), (2, 6), (6, 4), (0, 6), (6, 5), (1, 7), (7, 4), (0, 3), (1, 2)]


def symmetry_cases(tier):
    for n in (2, 3) + ((4,) if tier == "thorough" else ()):
        for c in itertools.combinations(range(len(EDGES)), n):
            for s in (None, 2000):
                yield {"edges": list(c), "axis": s}


def run_symmetry(case, ctx):
    used = [EDGES[e] for e in case["edges"]]
    ids = sorted({i for e in used for i in e})
    nodes = [PTS[i] for i in ids]
    d = {"nodes": nodes, "members": [{"n": [ids.index(i), ids.index(j)], "sec": "HEA 100", "type": "beam", "nel": 1} for i, j in used], "supp": [[0, "fix"]]}
    fr = D.build(d)
    x = [p[0] for p in nodes]
    ax = case["axis"] if case["axis"] is not None else 0.5 * (min(x) + max(x))
    fr.symmetry(sym_value=case["axis"])
    ctx.step()

    def mirror(e):
        return sorted([2 * ax - PTS[i][0], PTS[i][1]] for i in e)
    for k, e in enumerate(used):
        want = [j for j, f in enumerate(used) if j != k and sorted(PTS[i] for i in f) == mirror(e)]
        got = fr.members[k].symmetry_pair
        got = [] if got is None else [j for j, m in fr.members.items() if m is got]
        ctx.expect(got == want, "mirror-image", f"members {[[PTS[i] for i in f] for f in used]}: mirror image of member {k} is {got}, expected {want}")
    ctx.state(tuple(case["edges"]))


def families(tier):
    return [
        Family("symmetry", lambda: symmetry_cases(tier), run_symmetry, "sets of members over eight nodes x axis given or found", "all sets of two and three (four) of 18 members"),
        Family("members", lambda: single_cases(tier), run_single, "member kind x load set x profile family x limits of the search", "complete product"),
        Family("groups", lambda: group_cases(tier), run_group, "members of a portal in a group or mirror images of each other x profile family x limits", "complete product"),
        Family("frames", lambda: frame_cases(tier), run_frame, "whole frames: profile family x loads x grouping, the result is a fixed point of analysis and selection (independent analysis and search)", "complete product"),
    ]
