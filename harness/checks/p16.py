"""Real job loops in virtual time, judged by Loop.tla."""
import loops
from common import CheckError, validate
from pool import pmap
from world import preload

KEEP = {"start", "plan", "run", "backup", "bend", "pull", "push", "gc", "gend", "cb", "cend", "lock", "unlock", "end", "run-refused", "vanish", "runaway"}


def job(seed, span):
    r = loops.play(loops.single, seed, span)
    r["events"] = [e for e in r["events"] if e["j"] in (r["job"], "") and e["k"] in KEEP]
    r["busy"] = False
    return r


MORE = """SPECIFICATION Spec
CONSTANTS MaxT = %s ClearLate = FALSE NoReset = FALSE Careless = FALSE Forever = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Accepted Bounded OnlyGood Remembered Soon AfterSuccess Backoff
"""


def run(c):
    c.mc("LoopMC", "LoopMC.cfg", workers=8)
    c.mc("LoopMC", "LoopMC_long.cfg", workers=8)
    if not c.quick:
        c.mc("LoopMC", MORE % "16000 MaxReq = 3 MaxLock = 2 MaxRun = 4 Step = 5000", workers=8)
        c.mc("LoopMC", MORE % "8500 MaxReq = 2 MaxLock = 2 MaxRun = 3 Step = 1000", workers=8)
    preload()
    rng = c.rng
    n = 150 if c.quick else 4000
    jobs = [(rng.randrange(1 << 40), rng.choice([1, 2, 4] if c.quick else [1, 2, 4, 20]) * 86400) for _ in range(n)]
    res = pmap(job, jobs, budget=45 if c.quick else 780)
    traces, args = [], []
    for a, st, r in res:
        if st != "ok":
            raise CheckError(f"{a}: {r}")
        traces.append(r)
        args.append(a)
    problems, stats = validate("LoopTrace", traces, min_batch=4)
    c.add_traces(stats)
    es = [e for t in traces for e in t["events"]]
    c.extra["observations"] = len(es)
    c.extra["kinds"] = {k: sum(e["k"] == k for e in es) for k in sorted(KEEP)}
    c.extra["failed_backups"] = sum(e["k"] == "bend" and e["rc"] != 0 for e in es)
    if traces:
        c.sample(traces[0]["events"][:6])
    for ti, rec in problems:
        k = rec["i"] - 1
        tr = traces[ti]
        c.violation(rec["k"], dict(job=args[ti], step=k, name=tr["job"], sched=tr["sched"], peers=tr["peers"], events=tr["events"][max(0, k - 8):k + 1]))
    c.assumptions += ["time is virtual: nothing but waiting takes time", "programs and peers are stand-ins with scripted outcomes"]
