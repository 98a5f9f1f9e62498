"""Several real job loops sharing worker slots in virtual time, judged by Slots.tla."""
import loops
from common import CheckError, validate
from pool import pmap
from world import preload

KEEP = {"start", "gone", "limit", "plan", "run", "backup", "bend", "cb", "cend", "idle", "runaway"}
DROP = {"src", "sch", "now", "last", "hist", "told", "disk", "tags", "left", "fresh"}


def job(seed, span, reloads, limits):
    r = loops.play(loops.many, seed, span, reloads, limits)
    r["events"] = [{k: v for k, v in e.items() if k not in DROP} for e in r["events"] if e["k"] in KEEP]
    return r


def run(c):
    preload()
    if c.quick:
        c.mc("SlotsMC", "SlotsMC.cfg", workers=8)
    else:
        c.mc("SlotsMC", "SlotsMC_live.cfg", workers=8)
        c.mc("SlotsMC", "SlotsMC_big.cfg", workers=8)
    rng = c.rng
    n = 150 if c.quick else 4000
    jobs = [(rng.randrange(1 << 40), rng.choice([1, 2, 3] if c.quick else [1, 3, 10]) * 43200, rng.choice([0, 0, 0.05, 0.2]), rng.random() < 0.4) for _ in range(n)]
    res = pmap(job, jobs, budget=40 if c.quick else 420)
    traces, args = [], []
    for a, st, r in res:
        if st != "ok":
            raise CheckError(f"{a}: {r}")
        traces.append(r)
        args.append(a)
    problems, stats = validate("SlotsTrace", traces, min_batch=4)
    c.add_traces(stats)
    es = [e for t in traces for e in t["events"]]
    c.extra["observations"] = len(es)
    c.extra["kinds"] = {k: sum(e["k"] == k for e in es) for k in sorted(KEEP)}
    if traces:
        c.sample(traces[0]["events"][:6])
    for ti, rec in problems:
        k = rec["i"] - 1
        tr = traces[ti]
        c.violation(rec["k"], dict(job=args[ti], step=k, limit=tr["limit"], events=tr["events"][max(0, k - 25):k + 1]))
    c.assumptions += ["time is virtual: nothing but waiting takes time", "programs are stand-ins with scripted durations and outcomes"]
