"""Small bounded-exhaustive model-checking kernel used by every check in /verif.

A check is a Python module in mc/props with

    PROPERTY = "P01"
    def families(tier):  -> list of Family objects

A Family enumerates a finite set of *cases* completely (no sampling).  A case is
a JSON-serialisable description: an operation history, a structure / configuration
or an input tuple.  Each case is executed on the real code from /repo's working
tree; an independent reference model (plain Python, in this directory, sharing no code
with /repo) says what must be observed.  `Family.run(case, ctx)` reports differences
through ctx.fail(...), counts the transitions (steps on the real code that
were compared) and the canonical states it observed.

Histories are explored breadth first (`histories`): all words over an alphabet
up to a depth, optionally pruned with an enabled() predicate; the first counterexample
is therefore a shortest one.

Violations are written to /verif/replays/<property>-<key>.json and can be replayed with
    run.py <property> --replay <file>
"""
import contextlib
import hashlib
import io
import itertools
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("METKU_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")
MAXVIOL = 25
CASE_TIMEOUT = 90


# ---------------------------------------------------------------- utilities
def canon(x, nd=6):
    """canonical, rounded, hashable form of an observation"""
    import numpy as np
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon(v, nd)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v, nd) for v in x)
    if isinstance(x, np.ndarray):
        return tuple(canon(v, nd) for v in x.tolist())
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        if x == 0:
            return 0.0
        return float(f"{x:.{nd}g}")
    if x is None or isinstance(x, str):
        return x
    return repr(type(x).__name__)


def h(x):
    return hashlib.blake2b(repr(canon(x)).encode(), digest_size=8).hexdigest()


def close(a, b, rel=1e-6, abs_=1e-9):
    """numerical agreement; both may be arrays/lists/scalars"""
    import numpy as np
    try:
        a = np.asarray(a, dtype=float).ravel()
        b = np.asarray(b, dtype=float).ravel()
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    for u, v in zip(a, b):
        if math.isnan(u) or math.isnan(v):
            return False
        if math.isinf(u) or math.isinf(v):
            if u != v:
                return False
            continue
        if abs(u - v) > abs_ + rel * max(abs(u), abs(v)):
            return False
    return True


def close_scaled(a, b, scale, rel=1e-6):
    import numpy as np
    a = np.asarray(a, dtype=float).ravel()
    b = np.asarray(b, dtype=float).ravel()
    if a.shape != b.shape or not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
        return False
    return bool(np.all(np.abs(a - b) <= rel * (abs(scale) + 1e-12)))


@contextlib.contextmanager
def quiet():
    """the library prints a lot; its output is not part of any property"""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield buf


class Ctx:
    """per-case recorder"""

    def __init__(self):
        self.fails = []
        self.transitions = 0
        self.states = set()
        self.traces = 0
        self.undefined = 0

    def step(self, n=1):
        self.transitions += n

    def state(self, x):
        self.states.add(h(x))

    def fail(self, key, msg, **data):
        self.fails.append({"key": key, "msg": msg, "data": json.loads(json.dumps(data, default=_js))})

    def expect(self, cond, key, msg, **data):
        self.transitions += 1
        if not cond:
            self.fail(key, msg, **data)
        return bool(cond)

    def eq(self, got, want, key, what, rel=1e-6, abs_=1e-9, **data):
        """compare an observation of the real code with the reference model"""
        self.transitions += 1
        ok = close(got, want, rel, abs_)
        if not ok:
            self.fail(key, f"{what}: implementation {short(got)} reference {short(want)}", got=got, want=want, **data)
        return ok


def short(x):
    import numpy as np
    try:
        a = np.asarray(x, dtype=float).ravel()
        if a.size == 1:
            return f"{a[0]:.8g}"
        return "[" + ", ".join(f"{v:.6g}" for v in a[:12]) + (", ..." if a.size > 12 else "") + "]"
    except Exception:
        return repr(x)[:120]


def _js(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (set, frozenset, tuple)):
        return list(o)
    return repr(o)


class Family:
    """A completely enumerated set of cases.

    name   : short name (part of a finding's key)
    cases  : callable () -> iterable of cases  (deterministic order, simplest first)
    run    : callable (case, ctx)
    rule   : how the cases are made (goes to the evidence)
    bound  : text describing the bound that was completely covered
    """

    def __init__(self, name, cases, run, rule="", bound="", guard_exc=True):
        self.name = name
        self.cases = cases
        self.run = run
        self.rule = rule
        self.bound = bound
        self.guard_exc = guard_exc


def histories(alphabet, depth, enabled=None, mindepth=0):
    """all words over alphabet with mindepth <= length <= depth, shortest first"""
    frontier = [()]
    if mindepth == 0:
        yield []
    for d in range(1, depth + 1):
        nxt = []
        for w in frontier:
            for a in alphabet:
                if enabled is None or enabled(w, a):
                    v = w + (a,)
                    nxt.append(v)
                    if d >= mindepth:
                        yield list(v)
        frontier = nxt


def product_cases(**axes):
    keys = list(axes)
    for vals in itertools.product(*[axes[k] for k in keys]):
        yield dict(zip(keys, vals))


# ---------------------------------------------------------------- execution
_FAM = None


def _init_worker():
    os.environ["OMP_NUM_THREADS"] = "1"


def _run_chunk(args):
    fi, cases = args
    fam = _FAM[fi]
    out = {"t": 0, "traces": 0, "states": set(), "fails": [], "n": 0, "undef": 0, "skipped": 0}
    for case in cases:
        # many hanging cases, or a late hour with deviations already found: the verdict is
        # known, the rest of the space is not needed
        if _STOP.value >= MAX_TIMEOUTS or (_BAD.value and time.time() - _T0 > LATE):
            out["skipped"] += 1
            continue
        r = run_case(fam, case)
        out["n"] += 1
        if r.fails:
            _BAD.value = 1
            if any(f["key"] == "exception:CaseTimeout" for f in r.fails):
                with _STOP.get_lock():
                    _STOP.value += 1
        out["t"] += r.transitions
        out["traces"] += r.traces or 1
        out["undef"] += r.undefined
        out["states"] |= r.states
        for f in r.fails:
            if len(out["fails"]) < 400:
                out["fails"].append((fi, case, f))
    return out


MAX_TIMEOUTS = 8
LATE = 600 if os.environ.get("VERIF_TIER", "quick") == "quick" else 3000
_T0 = time.time()
_STOP = mp.Value("i", 0)
_BAD = mp.Value("i", 0)


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout("no answer within %d s" % CASE_TIMEOUT)


def run_case(fam, case):
    ctx = Ctx()
    with quiet():
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(CASE_TIMEOUT)
            try:
                fam.run(case, ctx)
            finally:
                signal.alarm(0)
        except Exception as e:  # the property promises a result: a crash is a deviation
            if not fam.guard_exc:
                raise
            tb = traceback.extract_tb(e.__traceback__)
            where = ""
            for fr in reversed(tb):
                if fr.filename.startswith(REPO):
                    where = os.path.relpath(fr.filename, REPO) + ":" + fr.name
                    break
            if not where:
                where = "harness:" + tb[-1].name
            ctx.fail("exception:" + type(e).__name__, f"raised {type(e).__name__}: {e} in {where}",
                     trace=traceback.format_exc()[-1800:])
    if not ctx.states:
        ctx.state(case)
    return ctx


def load_known(prop):
    """known_findings.txt:  finding: property=P01 family=<f> key=<k> case=<json or *> :: text"""
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        head, _, text = line[len("finding:"):].partition("::")
        d = {}
        for tok in head.split():
            k, _, v = tok.partition("=")
            d[k] = v
        if d.get("property") == prop:
            d["text"] = text.strip()
            out.append(d)
    return out


def match_known(known, fam, case, fail):
    hc = h(case)
    for k in known:
        if k.get("family") != fam.name:
            continue
        if k.get("key") not in (fail["key"],):
            continue
        if hc in k.get("case", "").split(","):
            return k
    return None


def main(prop, fams, argv):
    global _FAM
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    only = None
    procs = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1)
    i = 0
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 1
        elif argv[i] == "--replay":
            replay = argv[i + 1]; i += 1
        elif argv[i] == "--family":
            only = argv[i + 1]; i += 1
        elif argv[i] == "--procs":
            procs = int(argv[i + 1]); i += 1
        i += 1
    t0 = time.time()
    with quiet():
        families = fams(tier)
    if only:
        families = [f for f in families if f.name == only]
    _FAM = families
    known = load_known(prop)

    if replay:
        d = json.load(open(replay))
        fam = [f for f in fams(d.get("tier", "thorough")) if f.name == d["family"]][0]
        a = run_case(fam, d["case"])
        b = run_case(fam, d["case"])
        same = [f["key"] for f in a.fails] == [f["key"] for f in b.fails]
        for f in a.fails:
            print("  ", f["key"], "--", f["msg"])
        print("replay deterministic:", same, "| deviations:", len(a.fails))
        return 1 if a.fails else 0

    total = {"cases": 0, "t": 0, "traces": 0, "undef": 0, "skipped": 0}
    states = set()
    per_family = {}
    samples = []
    fails = []
    ctxm = mp.get_context("fork")
    jobs = []
    for fi, fam in enumerate(families):
        cases = list(fam.cases())
        per_family[fam.name] = {"cases": len(cases), "rule": fam.rule, "bound": fam.bound, "transitions": 0, "states": 0}
        if cases:
            for idx in {0, len(cases) // 2, len(cases) - 1}:
                samples.append({"family": fam.name, "case": cases[idx]})
        n = len(cases)
        ch = max(1, min(200, n // (procs * 6) + 1))
        for s in range(0, n, ch):
            jobs.append((fi, cases[s:s + ch]))
    fam_states = {f.name: set() for f in families}

    def absorb(fi, out):
        total["cases"] += out["n"]
        total["t"] += out["t"]
        total["traces"] += out["traces"]
        total["undef"] += out["undef"]
        total["skipped"] += out["skipped"]
        fam_states[families[fi].name] |= out["states"]
        per_family[families[fi].name]["transitions"] += out["t"]
        fails.extend(out["fails"])

    if procs > 1 and len(jobs) > 1:
        with ctxm.Pool(procs, initializer=_init_worker) as pool:
            for (fi, _), out in zip(jobs, pool.imap(_run_chunk, jobs)):
                absorb(fi, out)
    else:
        for j in jobs:
            absorb(j[0], _run_chunk(j))
    for f in families:
        per_family[f.name]["states"] = len(fam_states[f.name])
        states |= {(f.name, s) for s in fam_states[f.name]}

    # ---- verdict
    new, old = {}, {}
    for fi, case, f in fails:
        fam = families[fi]
        k = match_known(known, fam, case, f)
        if k is not None:
            old.setdefault(k["text"], 0)
            old[k["text"]] += 1
        else:
            new.setdefault((fam.name, f["key"]), []).append((case, f))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    nviol = 0
    lines = []
    for (fname, key), lst in new.items():
        case, f = lst[0]
        nviol += len(lst)
        safe = "".join(c if c.isalnum() else "_" for c in f"{fname}-{key}")[:70]
        path = os.path.join(VERIF, "replays", f"{prop}-{safe}.json")
        json.dump({"property": prop, "tier": tier, "family": fname, "case": case, "key": key, "msg": f["msg"],
                   "data": f["data"], "case_hash": h(case), "occurrences": len(lst),
                   "all_case_hashes": [h(c) for c, _ in lst][:2000],
                   "replay": f"/opt/venv/bin/python -W ignore mc/run.py {prop} --replay {path}"},
                  open(path, "w"), indent=1, default=_js)
        lines.append((path, fname, key, f["msg"], len(lst)))
    cov = {"states": len(states), "transitions": total["t"], "traces_validated_against_impl": total["traces"],
           "cases": total["cases"], "samples": samples[:12], "families": per_family, "exhaustive": True,
           "outside_domain": total["undef"],
           "rule": "every case of every family is enumerated and executed on the code in /repo; states are distinct "
                   "canonical observations (or configurations); transitions are steps/observations compared with the reference model"}
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "model_checking", "coverage": cov,
          "assumptions": ["reference models in /verif/mc are correct", "argument domains are the finite alphabets listed per family"],
          "wall_s": round(time.time() - t0, 3), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1, default=_js)
    for fname, pf in per_family.items():
        print(f"{prop} {fname}: cases={pf['cases']} states={pf['states']} transitions={pf['transitions']}  [{pf['bound']}]")
    print(f"{prop} TOTAL cases={total['cases']} states={len(states)} transitions={total["t"]} outside_domain={total["undef"]} {'skipped=%d ' % total['skipped'] if total['skipped'] else ''}wall={time.time()-t0:.1f}s tier={tier}")
    for text, n in old.items():
        print(f"KNOWN-FINDING: property={prop} {text} (hit {n}x)")
    if lines:
        for path, fname, key, msg, n in lines[:MAXVIOL]:
            print(f"  [{fname}/{key}] x{n}: {msg}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0
