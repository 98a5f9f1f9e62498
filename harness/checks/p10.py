"""Expiry by the real code on generated and random histories, judged by the
retention rule (Retention.tla)."""
import datetime
import json
import random

from common import SEED, CheckError, mkscratch, rmtree, run_tlc, validate
from pool import pmap
from revs import UTC, make_repo, read_revs, revdict, write_rev
from world import World, nolog, set_now

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxT = {t}
  MaxRevs = {r}
  Bug = "none"
  Gen = {gen}
{inv}
"""
T0 = datetime.datetime(2030, 5, 1, 8, 0, 0, tzinfo=UTC)
SUFFIX = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 7 * 86400, "": 1}


def rand_interval(rng):
    k = rng.choice("smhdw") if rng.random() < 0.9 else ""
    n = rng.choice([1, 1, 2, 3, 7, 10, 24, 36])
    return f"{n}{k}", n * SUFFIX[k]


def random_case(rng):
    """(schedule config, [(rev, t)], now) with times in seconds since T0"""
    sched, secs = {}, {}
    for tag in rng.sample(["daily", "weekly", "test", "a b", "ü"], rng.choice([1, 1, 2, 3])):
        iv, s = rand_interval(rng)
        sched[tag] = {"interval": iv, "keep": rng.choice([1, 1, 2, 3, 5])}
        secs[tag] = s
    unit = 1
    now = rng.randrange(10 ** 6, 2 * 10 ** 6) if max(secs.values()) < 86400 * 8 else 30 * 10 ** 6
    tags = list(sched) + ["old", "manual:x", "manual:daily", "manually"]
    revs, used = [], set()
    edges = [now - sched[g]["keep"] * secs[g] + o for g in sched for o in (-1, 0, 1)]
    for i in range(rng.choice([0, 1, 2, 3, 4, 6, 9])):
        t = rng.choice(edges) if rng.random() < 0.4 else now - rng.randrange(1, 2 * max(
            sched[g]["keep"] * secs[g] for g in sched) + 2)
        if rng.random() < 0.15 and revs:
            t = rng.choice(revs)[1]  # at the same time
        if rng.random() < 0.03:
            t = now + 50  # clock was wrong
        srv = rng.choice(["", "", "", "srv2"])
        w = rng.choice([0.3, 0.6, 0.9])
        tg = [x for x in tags if rng.random() < (w if x in sched else 0.25)]
        revs.append((revdict(f"r{i}", T0 + datetime.timedelta(seconds=t), tags=tg,
                             orig=(tg if rng.random() < 0.7 else ["daily"]) if srv else [], server=srv,
                             trust=rng.choice(["trusted", "verified", "distrusted"]) if not srv else "trusted",
                             duration=rng.choice([1.0, 2.5, None])), t))
    return sched, secs, revs, now, unit


def spec_case(g, unit):
    secs = {k: v["interval"] * unit for k, v in g["sched"].items()}
    sched = {k: {"interval": f"{secs[k]}s", "keep": v["keep"]} for k, v in g["sched"].items()}
    revs = []
    rs = g["revs"] if isinstance(g["revs"], dict) else {str(i + 1): r for i, r in enumerate(g["revs"])}
    for u, r in sorted(rs.items()):
        tg = ["manual:m" if x == "m" else x for x in r["tags"]]
        revs.append((revdict("r" + u, T0 + datetime.timedelta(seconds=r["t"] * unit), tags=tg,
                             orig=tg if r["server"] else [], server=r["server"]), r["t"] * unit))
    return sched, secs, revs, g["now"] * unit, unit


def view(d):
    """as TLC sees it"""
    res = {}
    for u, m in read_revs(d).items():
        rest = {k: v for k, v in m.items() if k not in ("tags", "parent")}
        rest["timestamp"] = rest["timestamp"].isoformat()
        rest["orig_tags"] = sorted(rest.get("orig_tags", []))
        res[u] = dict(t=int((m["timestamp"] - T0).total_seconds()), tags=sorted(m["tags"]),
                      server=m.get("server", ""), rest=json.dumps(rest, sort_keys=True, default=str))
    return res


def connect(repo, sched):
    from backy.repository import Repository
    from backy.schedule import Schedule

    s = Schedule()
    s.configure(sched)
    rp = Repository(repo, s, nolog())
    rp.connect()
    return rp


def execute(case, how, stale=None):
    """stale (a generator of random numbers): the repository was opened while
    the revisions on disk were others"""
    sched, secs, revs, now, unit = case
    rp = None
    d = mkscratch("ex")
    err = ""
    try:
        tnow = T0 + datetime.timedelta(seconds=now)
        if how == "cli":
            w = World(d, kind="file", schedule=sched)
            w.now = tnow
            repo = w.repo
        else:
            repo = make_repo(d / "repo", sched)
        if stale and how != "cli":
            for r, _ in revs:
                if stale.random() < 0.6:
                    write_rev(repo, dict(r, tags=[g for g in r["tags"] if stale.random() < 0.5] or ["old"]))
            write_rev(repo, revdict("gone", T0, tags=list(sched)))
            set_now(tnow)
            rp = connect(repo, sched)
            for f in repo.glob("*.rev"):
                f.unlink()
        for r, _ in revs:
            write_rev(repo, r)
        before = view(repo)
        views = []
        for _ in range(2):
            try:
                if how == "cli":
                    if w.cli("gc", "--expire", "--local") != 0:
                        err = "exit status"
                else:
                    set_now(tnow)
                    rp = rp or connect(repo, sched)
                    rp.expire()
                    rp = None
            except Exception as e:
                err = f"{type(e).__name__}: {e}"
            try:
                views.append(view(repo))
            except Exception as e:
                err = err or f"unreadable: {e}"
                views.append({})
        manual = sorted({g for r, _ in revs for g in r["tags"] if g.startswith("manual:")})
        return dict(revs=before, sched={k: dict(interval=secs[k], keep=v["keep"]) for k, v in sched.items()},
                    now=now, manual=manual, after=views[0], again=views[1], err=err)
    finally:
        rmtree(d)


def job(kind, seed, arg):
    rng = random.Random(seed)
    out = []
    if kind == "spec":
        for g in arg:
            out.append(execute(spec_case(g, rng.choice([1, 60, 3600, 86400])), "repo",
                               rng if rng.random() < 0.3 else None))
    else:
        for _ in range(arg):
            out.append(execute(random_case(rng), kind, rng if rng.random() < 0.4 else None))
    return out


def run(c):
    q = c.quick
    c.mc("RetentionMC", CFG.format(t=3 if q else 6, r=3, gen="FALSE",
                                   inv="INVARIANTS RuleHolds Idempotent NoLeftovers\nPROPERTIES NewestKept"),
         workers=8, timeout=800, heap="10g")
    r = run_tlc("RetentionMC", CFG.format(t=9, r=6, gen="TRUE", inv="INVARIANTS RuleHolds"), workers=1,
                simulate=150 if q else 1500, depth=30, seed=SEED, timeout=300)
    gs = sorted({json.dumps(g, sort_keys=True) for g in r.prints if g["revs"]})
    c.rng.shuffle(gs)
    gs = [json.loads(g) for g in gs[:1200 if q else 12000]]
    if len(gs) < 50:
        raise CheckError("no behaviours generated")
    rng = c.rng
    jobs = [("spec", rng.randrange(1 << 40), gs[k:k + 60]) for k in range(0, len(gs), 60)]
    jobs += [("repo", rng.randrange(1 << 40), 60) for _ in range(30 if q else 400)]
    jobs += [("cli", rng.randrange(1 << 40), 5) for _ in range(8 if q else 60)]
    rng.shuffle(jobs)
    res = pmap(job, jobs, budget=40 if q else 500)
    traces = []
    for a, st, out in res:
        if st != "ok":
            raise CheckError(out)
        traces.append(dict(cases=out))
    n = sum(len(t["cases"]) for t in traces)
    c.log(f"{n} expiries by the real code ({len(gs)} from the specification)")
    probs, stats = validate("RetentionTrace", traces, min_batch=3)
    stats["traces"] = n
    c.add_traces(stats)
    for i, rec in probs:
        c.violation(rec["k"], traces[i]["cases"][rec["i"] - 1])
    c.extra["expiries"] = n
    c.extra["expired_revisions"] = sum(len(x["revs"]) - len(x["after"]) for t in traces for x in t["cases"])
    c.sample(traces[0]["cases"][:2])
