#!/usr/bin/env python3
"""Composes /verif/DESIGN.md from the texts below, the families of the checks, the planted bugs and the known findings.
usage (from /verif): PYTHONPATH=. /opt/venv/bin/python -W ignore tools/design.py"""
import collections, glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools"), os.environ.get("METKU_REPO", "/repo")]
from props_data import PROPS
from design_text import HEAD, TEXT, TAIL

seeds = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    seeds[json.load(open(f))["property"]].append((os.path.basename(os.path.dirname(f)), json.load(open(f))["needs"]))
fixed = collections.defaultdict(list)
other = []
for l in open(os.path.join(HERE, "known_findings.txt")):
    l = l.strip()
    if l.startswith("fixed: property="):
        p, rest = l[len("fixed: property="):].split(" ", 1)
        fixed[p].append(rest)
    elif l and not l.startswith("#"):
        other.append(l)
wall = {}
for f in glob.glob(os.path.join(HERE, "evidence", "P*.json")):
    d = json.load(open(f))
    wall[d["property"]] = d
out = [HEAD]
for p in PROPS:
    i = p["id"]
    t = TEXT[i]
    out.append(f"### {i} — {p['title']}\n")
    out.append("Exploration (quick tier; the bound in brackets is that of the thorough tier):\n")
    for f in importlib.import_module("mc.props." + i.lower()).families("quick"):
        out.append(f"- `{f.name}`: {f.rule} — {f.bound}.")
    out.append("")
    out.append("Oracle: " + t["oracle"] + "\n")
    out.append("Outside the bounds or the domain: " + t["limits"] + "\n")
    if i in wall and wall[i]["tier"] == "quick":
        c = wall[i]["coverage"]
        out.append(f"Size and cost of the quick tier: {c['cases']} cases, {c['states']} states, {c['transitions']} transitions, about {wall[i]['wall_s']:.0f} s on 8 cores.\n")
    if seeds[i]:
        out.append("Planted bugs (all caught by this check): " + "; ".join(f"`{a}` ({b})" for a, b in seeds[i]) + ".\n")
    out.append(f"Defects found and repaired: {len(fixed[i])}." + ("" if not fixed[i] else " Among them: " + "; ".join(x.split(" ", 1)[1] for x in fixed[i][:4]) + (" …" if len(fixed[i]) > 4 else "") + ".") + "\n")
out.append(TAIL)
if other:
    out.append("Listed known findings (not repaired):\n\n" + "\n".join("- " + x for x in other) + "\n")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "blocks", sum(map(len, out)), "characters; findings", sum(map(len, fixed.values())), "seeds", sum(map(len, seeds.values())))
