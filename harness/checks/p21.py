"""Requests against real daemons, judged by Api.tla."""
import api
from common import CheckError, validate
from pool import pmap
from world import preload


def run(c):
    c.mc("ApiMC", "ApiMC.cfg" if c.quick else """SPECIFICATION Spec
CONSTANTS ClearFirst = TRUE Survive = TRUE MaxReload = 4 Names = {"a", "b"}
CHECK_DEADLOCK FALSE
INVARIANTS Current Alive Authenticated ActiveKept Others OthersKept LockedKept
""", workers=8)
    preload()
    rng = c.rng
    parts = 8 if c.quick else 16
    seed = lambda: rng.randrange(1 << 40)
    jobs = [("product", seed() // 97 * 97 + parts, k) for k in range(parts)]
    n = 120 if c.quick else 3000
    for k in range(n):
        jobs.append(("mixed", seed(), 60))
        if k % 4 == 0:
            jobs.append(("storm", seed(), 8))
    res = pmap(api.job, jobs, budget=45 if c.quick else 780)
    traces, shown, args = [], [], []
    for a, st, r in res:
        if st != "ok":
            raise CheckError(f"{a}: {r}")
        traces.append(r[0])
        shown.append(r[1])
        args.append(a)
    problems, stats = validate("ApiTrace", traces, min_batch=4)
    c.add_traces(stats)
    cs = [x for t in traces for x in t]
    c.extra["requests"] = len(cs)
    c.extra["codes"] = {str(k): sum(x["code"] == k for x in cs) for k in sorted({x["code"] for x in cs})}
    c.extra["routes"] = {k: sum(x["r"]["route"] == k for x in cs) for k in sorted({x["r"]["route"] for x in cs})}
    c.extra["reload_storms"] = sum(a[0] == "storm" for a in args)
    if cs:
        c.sample(shown[0][0])
        c.sample(traces[-1][-1])
    for ti, rec in problems:
        k = rec["i"] - 1
        c.violation(rec["k"], dict(job=args[ti], step=k, case=shown[ti][k], before=traces[ti][k]["s0"], after=traces[ti][k]["s1"], request=traces[ti][k]["r"]))
    c.assumptions += ["requests are well-formed HTTP/1.1 on loopback", "no two requests are in progress at the same time"]
