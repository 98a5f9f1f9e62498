"""Shared driver of the checks that judge histories of the image repository.

1. TLC checks the detailed algorithm (RepoFine) against the clauses (RepoOps).
2. TLC generates behaviours of RepoFine; each is replayed into the real code.
3. Random longer histories exercise what RepoFine abstracts (image sizes,
   diff streams, schedules, faults, kinds of damage).
4. TLC judges every recorded execution (RepoTrace).
"""
import json
import random
import time

from common import SEED, CheckError, mkscratch, rmtree, run_tlc, validate
from pool import pmap
from repohist import Hist, random_history, spec_history

GEN_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRevs = 4
  Pieces = {"a", "b"}
  MaxLen = 2
  MaxDamage = 2
  MaxCrash = 0
  MaxOps = 8
  Full = FALSE
  Gen = TRUE
  BugNoClean = FALSE
  BugMetaFirst = FALSE
  BugTrustCompare = FALSE
  BugBaseDistrusted = FALSE
INVARIANTS GenPrint
"""


def generated(n, seed):
    r = run_tlc("RepoFine", GEN_CFG, workers=1, simulate=n, depth=150, seed=seed)
    gs = [json.dumps(g, sort_keys=True) for g in r.prints]
    # only the longest of a behaviour's prefixes
    keep = {}
    for s in gs:
        g = json.loads(s)
        key = json.dumps([g["img"]] + g["hist"])[:-1]
        keep[key] = g
    ks = sorted(keep)
    res = [keep[k] for i, k in enumerate(ks)
           if not (i + 1 < len(ks) and ks[i + 1].startswith(k))]
    return res


def run_hist(kind, seed, arg, n):
    """Job: one history of the real code; returns its trace."""
    d = mkscratch("h")
    err = None
    try:
        rng = random.Random(seed)
        h = Hist(d, full=(kind != "spec" and rng.random() < 0.12), seed=seed)
        try:
            if kind == "random":
                random_history(h, arg, n)
                for u in h.revs(clean=True, server=""):
                    h.restore(u, rng.random() < 0.2)
            elif kind == "spec":
                spec_history(h, arg)
            else:
                kind(h)
        except Exception as e:
            import traceback

            err = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2000:]
        return h.trace(), err
    finally:
        rmtree(d)


def mc_fine(c, **over):
    import re

    from common import SPEC

    cfg = (SPEC / "RepoFine.cfg").read_text()
    for k, v in over.items():
        cfg = re.sub(rf"^  {k} = .*$", f"  {k} = {v}", cfg, flags=re.M)
    c.mc("RepoFine", "# RepoFine.cfg\n".replace("#", "\\*") + cfg, workers=8, timeout=700, heap="6g")


def judge(c, module, results, clauses, describe=None):
    """Validate recorded traces, report the property's clauses."""
    traces, errs = [], []
    for a, st, r in results:
        if st != "ok":
            errs.append(r)
            continue
        t, err = r
        if err:
            errs.append(err)
        if t["steps"]:
            traces.append(t)
    probs, stats = validate(module, traces)
    c.add_traces(stats)
    for t in traces[:5]:
        c.sample([s["desc"] for s in t["steps"]][:30])
    other = {}
    for ti, rec in probs:
        if rec["k"] in clauses or clauses is None:
            steps = traces[ti]["steps"]
            c.violation(rec["k"], dict(
                operation=rec["op"], at=rec["i"],
                history=[s["desc"] for s in steps[:rec["i"]]],
                event=steps[rec["i"] - 1]["a"],
                pre=(steps[rec["i"] - 2]["post"] if rec["i"] > 1 else traces[ti]["init"]),
                post=steps[rec["i"] - 1]["post"]))
        else:
            other[rec["k"]] = other.get(rec["k"], 0) + 1
    if other:
        c.log("clauses of other properties:", other)
        c.extra["other_clauses"] = other
    if errs and not c.violations:
        raise CheckError(f"{len(errs)} histories failed in the harness:\n" + errs[0])
    c.extra["steps"] = c.extra.get("steps", 0) + sum(len(t["steps"]) for t in traces)


def repo_check(c, clauses, weights, *, quick=(32, 80, 16), thorough=(400, 2500, 24),
               extra=(), mc=None, budget=None):
    """quick/thorough: (spec-generated, random, operations per history)"""
    ns, nr, n = quick if c.quick else thorough
    budget = budget or (150 if c.quick else 600)
    if mc is not False:
        mc_fine(c, **({"MaxOps": 4} if c.quick else {}) | (mc or {}))
    gens = generated(ns * 2, c.rng.randrange(1 << 30)) if ns else []
    c.rng.shuffle(gens)
    c.log(f"{len(gens)} behaviours generated")
    jobs = []
    for x in extra:
        jobs.append((x, c.rng.randrange(1 << 30), None, 0))
    a = [("spec", c.rng.randrange(1 << 30), g, 0) for g in gens[:ns]]
    b = [("random", c.rng.randrange(1 << 30), weights, n) for _ in range(nr)]
    mix = a + b
    c.rng.shuffle(mix)
    jobs += mix
    res = pmap(run_hist, jobs, budget=budget)
    c.log(f"{len(res)} of {len(jobs)} histories executed")
    judge(c, "RepoTrace", res, clauses)
