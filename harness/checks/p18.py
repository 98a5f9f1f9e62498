"""Real job loops with peers in virtual time, judged by Leader.tla."""
import loops
from common import CheckError, validate
from pool import pmap
from world import preload

KEEP = {"start", "plan", "run", "own", "ask", "backup", "pull", "cb", "down", "up", "probe", "end", "runaway"}
DROP = {"src", "sch"}


def job(seed, span):
    r = loops.play(loops.leader, seed, span)
    r["events"] = [{k: v for k, v in e.items() if k not in DROP} for e in r["events"] if e["j"] in (r["job"], "") and e["k"] in KEEP]
    r["busy"] = False
    return r


def run(c):
    c.mc("LeaderMC", "LeaderMC.cfg" if c.quick else "LeaderMC_big.cfg", workers=8)
    preload()
    rng = c.rng
    n = 250 if c.quick else 6000
    jobs = [(rng.randrange(1 << 40), rng.choice([1, 2, 4] if c.quick else [1, 2, 4, 20]) * 86400) for _ in range(n)]
    res = pmap(job, jobs, budget=40 if c.quick else 780)
    traces, args = [], []
    for a, st, r in res:
        if st != "ok":
            raise CheckError(f"{a}: {r}")
        traces.append(r)
        args.append(a)
    problems, stats = validate("LeaderTrace", traces, min_batch=4)
    c.add_traces(stats)
    es = [e for t in traces for e in t["events"]]
    c.extra["observations"] = len(es)
    c.extra["kinds"] = {k: sum(e["k"] == k for e in es) for k in sorted(KEEP)}
    if traces:
        c.sample(traces[0]["events"][:6])
    for ti, rec in problems:
        k = rec["i"] - 1
        tr = traces[ti]
        c.violation(rec["k"], dict(job=args[ti], step=k, name=tr["job"], peers=tr["peers"], events=tr["events"][max(0, k - 8):k + 1]))
    c.assumptions += ["time is virtual: nothing but waiting takes time", "peers are stand-ins which answer as scripted; programs are stand-ins"]
