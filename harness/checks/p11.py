"""Planning of backups by the real Schedule and Job, judged by Sched.tla."""
import datetime
import json
import os
import random
import subprocess
import sys
from pathlib import Path

from common import CheckError, mkscratch, rmtree, validate
from pool import pmap
from revs import UTC, make_repo, revdict, write_rev
from world import nolog, set_now

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Horizon = {h}
  Q = {q}
  Bug = "none"
INVARIANTS AlgoRight NoneSkipped Future CaughtUp
"""
T0 = datetime.datetime(2030, 5, 1, 8, 0, 0, tzinfo=UTC)
ZERO = datetime.datetime(1, 1, 1, tzinfo=UTC)
US = datetime.timedelta(microseconds=1)
SUFFIX = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 7 * 86400, "": 1}


class Case:
    """A schedule, a spread and units of 1/q second from T0"""

    def __init__(self, rng):
        self.q = q = rng.choice([1, 4, 4, 10 ** 6])
        small = q == 10 ** 6
        self.config, self.secs = {}, {}
        for tag in rng.sample(["daily", "weekly", "x", "a b", "ü"], rng.choice([1, 1, 2, 3])):
            if small:
                k, n = rng.choice([("s", rng.choice([1, 2, 7, 30])), ("m", rng.choice([1, 2, 4])), ("", 45)])
            else:
                k = rng.choice("smhdw") if rng.random() < 0.9 else ""
                n = rng.choice([1, 1, 2, 3, 7, 10, 24, 36])
            self.config[tag] = {"interval": f"{n}{k}", "keep": 1}
            self.secs[tag] = n * SUFFIX[k]
        m = max(self.secs.values())
        self.spread = rng.choice([0, 1, rng.randrange(0, m + 1), rng.randrange(0, m + 1), m, min(self.secs.values())])
        us = (T0 - ZERO) // US
        self.sched = {g: dict(interval=s * q, off=(us % (s * 10 ** 6)) * q // 10 ** 6) for g, s in self.secs.items()}

    def time(self, t, tz=UTC):
        return (T0 + US * (t * (10 ** 6 // self.q))).astimezone(tz)

    def units(self, dt):
        n, r = divmod(((dt - T0) // US) * self.q, 10 ** 6)
        return n if not r else None

    def grid(self, tag, k):
        s = self.sched[tag]
        o = (-s["off"] + self.spread * self.q) % s["interval"]
        return o + k * s["interval"]

    def some_time(self, rng, lo, hi):
        r = rng.random()
        if r < 0.6:
            g = rng.choice(list(self.sched))
            iv = self.sched[g]["interval"]
            k = rng.randrange(-(-lo // iv), max(-(-lo // iv), hi // iv) + 1)
            t = self.grid(g, k) + rng.choice([0, 0, -1, 1, -2, 2, -300 * self.q, -300 * self.q - 1, -300 * self.q + 1,
                                              -iv, rng.randrange(iv)])
            return t
        return rng.randrange(lo, hi)


TZS = [UTC, datetime.timezone(datetime.timedelta(hours=5, minutes=30)), datetime.timezone(datetime.timedelta(hours=-8))]


def schedule(config):
    from backy.schedule import Schedule

    s = Schedule()
    s.configure(config)
    return s


def ask(c, sch, repo, rel, now, tz):
    """one planning by the real code"""
    set_now(c.time(now))
    r = dict(rel=rel, now=now, time=0, tags=[], time2=0, tags2=[], err="")
    try:
        a, g = sch.next(c.time(rel, tz), c.spread, repo)
        g = sorted(g)
        b, h = sch.next(c.time(rel), c.spread, repo)
        r["tags"], r["tags2"] = g, sorted(h)
        r["time"], r["time2"] = c.units(a), c.units(b)
        if r["time"] is None or r["time2"] is None:
            r["time"], r["err"] = 0, f"between units: {a}"
    except Exception as e:
        r["err"] = f"{type(e).__name__}: {e}"
    return r


def make_revs(c, rng, now):
    """(revisions, newest complete per scheduled tag, any revision)"""
    revs, last = [], {}
    for i in range(rng.choice([0, 1, 1, 2, 3, 5])):
        tags = [g for g in list(c.sched) + ["manual:z", "old"] if rng.random() < 0.5]
        g = rng.choice(list(c.sched))
        iv = c.sched[g]["interval"]
        t = now - rng.choice([iv, iv - 1, iv + 1, rng.randrange(2 * iv), rng.randrange(2 * iv), 0])
        clean = rng.random() < 0.75
        revs.append(revdict(f"r{i}", c.time(t), tags=tags, server=rng.choice(["", "", "srv2"]),
                            duration=rng.choice([1.0, 700.0]) if clean else None))
        if clean:
            for x in tags:
                if x in c.sched:
                    last[x] = max(last.get(x, t), t)
    return revs, last, bool(revs)


def repo_of(d, c, revs):
    from backy.repository import Repository

    p = make_repo(d / "repo", c.config)
    for r in revs:
        write_rev(p, r)
    rp = Repository(p, schedule(c.config), nolog())
    rp.connect()
    return rp


def one_next(rng):
    c = Case(rng)
    m = max(s["interval"] for s in c.sched.values())
    now = c.some_time(rng, 0, 3 * m)
    rel = now if rng.random() < 0.7 else c.some_time(rng, now, now + m)
    d = mkscratch("sc")
    try:
        revs, last, hist = make_revs(c, rng, now)
        rp = repo_of(d, c, revs)
        s = ask(c, rp.schedule, rp, rel, now, rng.choice(TZS))
    finally:
        rmtree(d)
    return dict(kind="next", sched=c.sched, spread=c.spread, q=c.q, steps=[dict(s, last=last, hist=hist)])


def one_chain(rng):
    """The server follows the plan for some time"""
    c = Case(rng)
    d = mkscratch("sc")
    steps = []
    try:
        now = c.some_time(rng, 0, max(s["interval"] for s in c.sched.values()))
        last, n = {}, 0
        rp = repo_of(d, c, [])
        limit = now + max(5 * s["interval"] for s in c.sched.values())
        if c.q == 10 ** 6:
            limit = min(limit, now + 1000 * c.q)
        while len(steps) < 25 and now < limit:
            rp.scan()
            s = ask(c, rp.schedule, rp, now, now, rng.choice(TZS))
            steps.append(dict(s, last=dict(last), hist=n > 0))
            if s["err"]:
                break
            caught = s["time"] == now
            now = s["time"]
            if caught or rng.random() < 0.8:
                write_rev(rp.path, revdict(f"c{n:03d}", c.time(now), tags=s["tags"]))
                last.update({g: now for g in s["tags"]})
                n += 1
            elif rng.random() < 0.5:
                write_rev(rp.path, revdict(f"i{n:03d}", c.time(now), tags=s["tags"], duration=None))
                n += 1
    finally:
        rmtree(d)
    return dict(kind="chain", sched=c.sched, spread=c.spread, q=c.q, steps=steps)


SPREAD = """
import sys, json
from pathlib import Path
sys.path[:0] = json.loads(sys.argv[3])
from world import nolog
from backy.daemon.scheduler import Job
from backy.schedule import Schedule
from types import SimpleNamespace as N
out = []
for name, cfg in json.loads(sys.argv[1]):
    s = Schedule(); s.configure(cfg)
    j = Job(N(base_dir=Path(sys.argv[2])), name, nolog())
    j.source = N(repository=N(schedule=s))
    out.append([j.spread, j.spread, j.spread])
print(json.dumps(out))
"""


def spreads(rng, n):
    items = []
    for k in range(n):
        c = Case(rng)
        items.append((rng.choice(["vm%d", "test.%d", "ü%d", "%dx"]) % rng.randrange(1000),
                      c.config, max(c.secs.values())))
    d = mkscratch("sp")
    got = []
    for seed in ("0", "1", "77"):
        p = subprocess.run([sys.executable, "-c", SPREAD, json.dumps([i[:2] for i in items]), str(d),
                            json.dumps(sys.path)],
                           env=dict(os.environ, PYTHONHASHSEED=seed), stdin=subprocess.DEVNULL,
                           capture_output=True, text=True, timeout=120)
        if p.returncode:
            raise CheckError(p.stderr[-2000:])
        got.append(json.loads(p.stdout))
    return [dict(kind="spread", name=items[k][0], values=[v for g in got for v in g[k]], max=items[k][2])
            for k in range(n)]


def job(kind, seed, n):
    rng = random.Random(seed)
    f = dict(next=one_next, chain=one_chain)[kind]
    return [f(rng) for _ in range(n)]


def run(c):
    q = c.quick
    for grace in (0, 1):
        c.mc("SchedMC", CFG.format(h=14 if q else 40, q=grace), workers=8, timeout=600)
    rng = c.rng
    jobs = [("next", rng.randrange(1 << 40), 60) for _ in range(60 if q else 900)]
    jobs += [("chain", rng.randrange(1 << 40), 5) for _ in range(40 if q else 600)]
    rng.shuffle(jobs)
    traces = [dict(cases=spreads(rng, 60 if q else 400))]
    for a, st, out in pmap(job, jobs, budget=40 if q else 400):
        if st != "ok":
            raise CheckError(out)
        traces.append(dict(cases=out))
    n = sum(max(1, len(x.get("steps", []))) for t in traces for x in t["cases"])
    c.log(f"{n} plans by the real code")
    probs, stats = validate("SchedTrace", traces, min_batch=4)
    stats["traces"] = n
    c.add_traces(stats)
    for i, rec in probs:
        c.violation(rec["k"], traces[i]["cases"][rec["i"] - 1])
    c.extra["plans"] = n
    c.sample(traces[1]["cases"][:2])
