"""Real job loops under changing configurations in virtual time, judged by Config.tla."""
import backyd
import loops
from common import CheckError, validate
from pool import pmap
from world import preload

KEEP = {"start", "gone", "reload", "plan", "run", "backup", "bend", "gc", "gend", "cb", "cend", "bterm", "gterm", "cterm", "applied", "idle", "terminate", "runaway"}
DROP = {"told", "disk", "left", "fresh", "cls", "stale", "pending", "busy"}


def job(seed, span, reloads, limits):
    r = loops.play(loops.many, seed, span, reloads, limits)
    drop = lambda e: {k: v for k, v in e.items() if k not in DROP and not (k == "tags" and e["k"] != "plan")}
    return dict(events=[drop(e) for e in r["events"] if e["k"] in KEEP])


def run(c):
    preload()
    rng = c.rng
    n = 150 if c.quick else 4000
    jobs = [(rng.randrange(1 << 40), rng.choice([1, 2] if c.quick else [1, 3, 10]) * 43200, rng.choice([0.1, 0.25, 0.4]), rng.random() < 0.4) for _ in range(n)]
    res = pmap(job, jobs, budget=35 if c.quick else 560)
    traces, args = [], []
    for a, st, r in res:
        if st != "ok":
            raise CheckError(f"{a}: {r}")
        traces.append(r)
        args.append(a)
    m = 40 if c.quick else 600
    procs = [(rng.randrange(1 << 40), rng.choice([8, 14])) for _ in range(m)]
    for a, st, r in pmap(backyd.play, procs, budget=20 if c.quick else 200):
        if st != "ok":
            raise CheckError(f"backyd {a}: {r}")
        traces.append(r)
        args.append(("backyd", *a))
    problems, stats = validate("ConfigTrace", traces, min_batch=4)
    c.add_traces(stats)
    es = [e for t in traces for e in t["events"]]
    c.extra["observations"] = len(es)
    c.extra["kinds"] = {k: sum(e["k"] == k for e in es) for k in sorted({e["k"] for e in es})}
    if traces:
        c.sample(traces[0]["events"][:4])
    for ti, rec in problems:
        k = rec["i"] - 1
        c.violation(rec["k"], dict(job=args[ti], step=k, limit=0, events=traces[ti]["events"][max(0, k - 25):k + 1]))
    c.assumptions += ["time is virtual: nothing but waiting takes time", "programs are stand-ins with scripted durations and outcomes"]
