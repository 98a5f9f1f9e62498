"""Revision specifications: all short token sequences and random long ones are
resolved by the real code; TLC compares with the documented meaning."""
import asyncio
import contextlib
import datetime
import io
import itertools
import json
import os
import random
import re

from common import CheckError, mkscratch, rmtree, split, validate
from pool import pmap
from revs import UTC, make_repo, revdict, write_rev
from world import DEFAULT_SCHEDULE, nolog

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = {n}
  Bug = "none"
INVARIANTS Agree NoDuplicates
"""
T0 = datetime.datetime(2030, 3, 30, 12, 0, 0, tzinfo=UTC)
ZONES = ["UTC", "Europe/Berlin", "America/St_Johns"]


def history(rng, n, ties=False):
    """[(rev dict, seconds since T0)], oldest first"""
    res, t = [], 0
    tags = ["daily", "weekly", "manual:x", "all", "first"]
    for i in range(n):
        t += 0 if ties and i and rng.random() < 0.4 else rng.choice([1, 3600, 86400, 86399, 7200])
        srv = rng.choice(["", "", "", "srv2", "srv3"])
        tg = [x for x in tags if rng.random() < 0.4]
        res.append((revdict(f"R{rng.randrange(36**6):06d}x{i}", T0 + datetime.timedelta(seconds=t),
                            tags=tg, orig=tg if srv else [], server=srv,
                            trust="trusted" if srv else rng.choice(["trusted", "distrusted", "verified"]),
                            duration=rng.choice([1.0, 1.0, 0.0, None])), t))
    return res


def vocab(rng, hist, zone, full):
    """[(token, text)]"""
    from zoneinfo import ZoneInfo

    S = lambda v: (dict(k="sym", v=v, n=0), v)
    W = lambda v: (dict(k="word", v=v, n=0), v)
    v = [S("("), S(")"), S(","), S("&"), S(".."), W("all"), W("first"), W("last"), W("not"),
         W("reverse"), W("local"), W("clean")]
    v += [(dict(k="num", v="", n=n), str(n)) for n in (0, 1)]
    v.append((dict(k="tag", v="daily", n=0), "tag:daily"))
    if hist:
        r = rng.choice(hist)[0]
        v.append((dict(k="id", v=r["uuid"], n=0), r["uuid"]))

    def date(sec, text=None):
        d = T0 + datetime.timedelta(seconds=sec)
        if text is None:
            f = rng.choice("uld") if full else "u"
            if f == "u":
                text = d.isoformat().replace("+00:00", rng.choice(["+00:00", "Z"]))
            elif f == "d":
                text = d.astimezone(datetime.timezone(datetime.timedelta(hours=5, minutes=30))).isoformat()
            else:
                l = d.astimezone(ZoneInfo(zone))
                text = l.replace(tzinfo=None).isoformat(rng.choice(["T", " "]))
                if l.fold:  # the second reading of an ambiguous time
                    text = d.isoformat()
        return dict(k="date", v="", n=sec), text

    ts = [t for _, t in hist] or [0]
    v.append(date(rng.choice(ts)))
    if not full:
        v.append(date(rng.choice(ts) + 1))
        return v
    v += [W("latest"), W("remote"), (dict(k="num", v="", n=-1), "-1"), (dict(k="num", v="", n=7), "7"),
          (dict(k="tag", v="weekly", n=0), "tag:weekly"), (dict(k="tag", v="manual:x", n=0), "tag:manual:x"),
          (dict(k="tag", v="all", n=0), "tag:all"), (dict(k="tag", v="zz", n=0), "tag:zz"),
          (dict(k="trust", v="trusted", n=0), "trust:trusted"),
          (dict(k="trust", v="distrusted", n=0), "trust:distrusted"),
          (dict(k="trust", v="verified", n=0), "trust:verified"), (dict(k="trust", v="zz", n=0), "trust:zz"),
          (dict(k="server", v="", n=0), "server:"), (dict(k="server", v="srv2", n=0), "server:srv2"),
          (dict(k="server", v="zz", n=0), "server:zz"), (dict(k="junk", v="", n=0), rng.choice(
              ["nope", "tag", "everything", "daily", "trust", "2030-13-01"]))]
    for r, _ in hist:
        v.append((dict(k="id", v=r["uuid"], n=0), r["uuid"]))
    for s in {rng.choice(ts) + rng.choice([-1, 0, 0, 1, 1800]) for _ in range(4)} | {-10 ** 6, 10 ** 8}:
        v.append(date(s))
    # a date alone is midnight of the local time zone
    d = datetime.date(2030, 3, 30) + datetime.timedelta(days=rng.randrange(4))
    m = datetime.datetime(d.year, d.month, d.day, tzinfo=ZoneInfo(zone))
    v.append(date(int((m - T0).total_seconds()), d.isoformat()))
    return v


def sample(rng, v, depth=0):
    """A random well-formed specification: list of vocabulary numbers"""
    by = {}
    for i, (t, _) in enumerate(v):
        by.setdefault(t["k"], []).append(i)
        if t["k"] in ("sym", "word"):
            by[t["v"]] = [i]
    sym = lambda s: [by[s][0]]
    single = lambda: ([rng.choice(by["num"] + by.get("id", []) + by["first"] + by["last"])]
                      if depth > 2 or rng.random() < 0.75 else
                      rng.choice([sym("first"), sym("last")]) + sym("(") + sample(rng, v, depth + 1) + sym(")"))
    bound = lambda: [rng.choice(by["date"])] if rng.random() < 0.4 else single()

    def item():
        k = rng.random()
        if k < 0.3:
            return [rng.choice([i for i, (t, _) in enumerate(v) if t["k"] != "sym" and t["k"] != "date"])]
        if k < 0.42:
            return single()
        if k < 0.7 or depth > 2:
            return (bound() if rng.random() < 0.8 else []) + sym("..") + (bound() if rng.random() < 0.8 else [])
        f = rng.choice([[], sym("not"), sym("reverse"), sym("first"), sym("last")])
        return f + sym("(") + sample(rng, v, depth + 1) + sym(")")

    res = item()
    while rng.random() < 0.35:
        res += sym(rng.choice([",", "&"])) + item()
    return res


def text_of(v, ts, rng, spaces):
    s = ""
    for i in ts:
        t, x = v[i]
        if s and t["k"] != "sym" and not s.endswith(("(", ")", ",", "&", "..")):
            return None  # adjacent words cannot be told apart
        if spaces and rng.random() < 0.15:
            s += " "
        s += x
    return s


class Resolver:
    def __init__(self, d, hist, zone):
        import tzlocal

        os.environ["TZ"] = zone
        tzlocal.reload_localzone()
        self.repo = make_repo(d / "repo", DEFAULT_SCHEDULE)
        for r, _ in hist:
            write_rev(self.repo, r)
        from backy.cli import Command

        self.log = nolog()
        self.cmd = Command(self.repo, d / "nothing.conf", False, None, self.log)
        self.rp = self.cmd.source.repository
        order = [u for u in self._lines("all") if isinstance(u, str)]
        self.pos = {u: i for i, u in enumerate(order)}
        self.hist = sorted(hist, key=lambda x: (x[1], self.pos.get(x[0]["uuid"], 0)))
        self.pos = {r["uuid"]: i + 1 for i, (r, _) in enumerate(self.hist)}

    def _run(self, name, kw):
        o = io.StringIO()
        with contextlib.redirect_stdout(o):
            c = self.cmd.__call__(name, kw)
            try:
                c.send(None)
            except StopIteration as e:
                return e.value, o.getvalue()
            rc = asyncio.run(self.cmd(name, kw))
        return rc, o.getvalue()

    def _lines(self, spec, how="uuid"):
        if how == "json":
            rc, out = self._run("log_", dict(json_=True, revision=spec))
            if rc:
                return None if not out else ["?"]
            try:
                return [r["uuid"] for r in json.loads(out)]
            except Exception:
                return ["?"]
        rc, out = self._run("rev_parse", dict(revision=spec, uuid=how == "uuid"))
        if rc:
            return None if not out else ["?"]
        ls = out.splitlines()
        if how == "path":
            return [re.sub(r"\.rev$", "", os.path.basename(x)) if x.startswith(str(self.repo) + "/") else "?"
                    for x in ls]
        return ls

    def many(self, spec, how):
        ls = self._lines(spec, how)
        if ls is None:
            return [-1]
        if any(x not in self.pos for x in ls):
            return [-2]
        return [self.pos[x] for x in ls]

    def one(self, spec):
        o = io.StringIO()
        try:
            with contextlib.redirect_stdout(o):
                r = self.rp.find(spec)
        except Exception:
            return [-1]
        return [self.pos[r.uuid]] if not o.getvalue() and getattr(r, "uuid", None) in self.pos else [-2]


def job(seed, n, mode, arg):
    d = mkscratch("rs")
    try:
        rng = random.Random(seed)
        zone = rng.choice(ZONES)
        h = history(rng, n, ties=mode == "random" and rng.random() < 0.3)
        R = Resolver(d, h, zone)
        v = vocab(rng, h, zone, mode != "all")
        cases, texts = [], []

        def add(ts, single):
            s = text_of(v, ts, rng, mode != "all" and not single)
            if s is None:
                return
            how = rng.choice(["uuid", "uuid", "path", "json"]) if mode != "all" else "uuid"
            out = R.one(s) if single else R.many(s, how)
            cases.append(dict(t=[v[i][0] for i in ts], single=single, out=out))
            texts.append(s)

        if mode == "all":
            L, part, parts = arg
            for l in range(L + 1):
                for k, ts in enumerate(itertools.product(range(len(v)), repeat=l)):
                    if k % parts == part:
                        add(list(ts), False)
                        if rng.random() < 0.15:
                            add(list(ts), True)
        else:
            for _ in range(arg):
                ts = sample(rng, v)
                if len(ts) > 40:
                    continue
                if rng.random() < 0.3:  # slightly wrong
                    for _ in range(rng.choice([1, 1, 2])):
                        k = rng.randrange(len(ts) + 1)
                        m = rng.random()
                        if m < 0.4 and ts:
                            del ts[min(k, len(ts) - 1)]
                        elif m < 0.8:
                            ts.insert(k, rng.randrange(len(v)))
                        elif len(ts) > 1:
                            i, j = rng.sample(range(len(ts)), 2)
                            ts[i], ts[j] = ts[j], ts[i]
                add(ts, rng.random() < 0.15)
        hist = [dict(u=r["uuid"], t=t, tags=r["tags"], trust=r["trust"], server=r["server"],
                     clean="duration" in r["stats"]) for r, t in R.hist]
        return dict(hist=hist, cases=cases), texts, zone
    finally:
        rmtree(d)


def run(c):
    q = c.quick
    c.mc("RevSpecImpl", CFG.format(n=4 if q else 6), workers=8, timeout=900, heap="10g")
    rng = c.rng
    jobs = []
    for n in (0, 1, 3) if q else (0, 1, 2, 3, 5):
        parts = 8 if q else 16
        for p in range(parts):
            jobs.append((rng.randrange(1 << 40), n, "all", (3 if q else 4, p, parts)))
    for _ in range(160 if q else 1500):
        jobs.append((rng.randrange(1 << 40), rng.choice([0, 1, 2, 3, 4, 5, 6]), "random", 250))
    res = pmap(job, jobs, budget=60 if q else 400)
    traces, meta = [], []
    for a, st, out in res:
        if st != "ok":
            raise CheckError(out)
        tr, texts, zone = out
        for k in range(0, len(texts), 400):
            traces.append(dict(hist=tr["hist"], cases=tr["cases"][k:k + 400]))
            meta.append((texts[k:k + 400], zone))
    n = sum(len(m[0]) for m in meta)
    ok = sum(1 for t in traces for x in t["cases"] if x["out"] not in ([-1], [-2]))
    c.log(f"{n} specifications resolved by the real code ({ok} select something)")
    probs, stats = validate("RevTrace", traces, min_batch=5)
    c.add_traces(stats)
    for i, rec in probs:
        k = rec["i"] - 1
        x = traces[i]["cases"][k]
        c.violation(rec["k"], dict(spec=meta[i][0][k], zone=meta[i][1], single=x["single"], got=x["out"],
                                   history=traces[i]["hist"]))
    c.extra["specifications"] = n
    c.extra["specifications_selecting"] = ok
    c.sample([dict(spec=s, out=x["out"]) for s, x in list(zip(meta[-1][0], traces[-1]["cases"]))[:8]])
