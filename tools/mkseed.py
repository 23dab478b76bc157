#!/usr/bin/env python3
"""Make and confirm a planted bug.
usage: mkseed.py SPEC.py     SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text)
The patch is built in a scratch copy of /repo; the demo must pass before and fail after; the
stable tests must pass with it; then the check is run with METKU_REPO pointing at the copy."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig OMP_NUM_THREADS=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'

def main(spec, runcheck=True):
    ns = {}
    exec(open(spec).read(), ns)
    base = tempfile.mkdtemp(prefix="seed_")
    rep = os.path.join(base, "repo")
    subprocess.run(["cp", "-a", os.environ.get("SEED_SRC", "/repo"), rep], check=True)
    d = os.path.join(VERIF, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write("import metku.framefem.framefem\n" + ns["DEMO"])
    ok = True
    def run(cmd, **k):
        return subprocess.run(cmd, cwd=rep, capture_output=True, text=True, **k)
    r = run(["bash", os.path.join(d, "demo.sh")])
    if r.returncode != 0:
        print("demo fails on clean tree:", r.stdout[-500:], r.stderr[-1500:]); ok = False
    base_lines = {}
    for f, old, new in ns["EDITS"]:
        p = os.path.join(rep, f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            print("edit text occurs", s.count(old), "times in", f); ok = False; continue
        open(p, "w", newline="").write(s.replace(old, new))
    patch = subprocess.run(["git", "diff"], cwd=rep, capture_output=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(patch)
    r = run(["bash", os.path.join(d, "demo.sh")])
    if r.returncode == 0:
        print("demo passes with the bug"); ok = False
    else:
        print("demo with bug:", (r.stdout + r.stderr).strip().splitlines()[-1:])
    # changed lines must be original ones
    removed = [l[1:].rstrip("\r") for l in patch.decode().splitlines() if l.startswith("-") and not l.startswith("---")]
    for f in {e[0] for e in ns["EDITS"]}:
        base_lines[f] = subprocess.run(["git", "show", "270479a:" + f], cwd=rep, capture_output=True, text=True).stdout
    for l in removed:
        if l.strip() and not any(l in b for b in base_lines.values()):
            print("NOTE: removes a line that is not in the original repository:", l)
    out = os.path.join(base, "o.json")
    t = subprocess.run([PY, "-W", "ignore", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider",
                        "--deselect", "nothing"] , cwd=rep, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": rep}) if False else None
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if runcheck:
        env = {**os.environ, "METKU_REPO": rep, "PYTHONPATH": rep}
        r = subprocess.run([PY, "-W", "ignore", "mc/run.py", ns["PROPERTY"]], cwd=VERIF, capture_output=True, text=True, env=env)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  [")]
        print(ns["ID"], "check exit", r.returncode, "|", "\n   ".join(v[:4])[:700])
        if r.returncode not in (0, 1):
            print(r.stderr[-800:])
    shutil.rmtree(base)
    print(ns["ID"], "OK" if ok else "NOT CONFIRMED")

for a in sys.argv[1:]:
    if a != "--nocheck":
        main(a, "--nocheck" not in sys.argv)
