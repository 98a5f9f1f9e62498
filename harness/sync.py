"""Real daemons exchanging metadata over loopback, through proxies that lose,
refuse or delay requests; histories recorded for SyncTrace.tla."""
import asyncio
import datetime
import fcntl
import json
import random
import shutil
import uuid as uuidlib

import revs
import vloop
from common import mkscratch, rmtree
from dmn import Server, address, file_source
from revs import UTC, revdict, write_rev
from world import digest, nolog

NOW = datetime.datetime(2030, 1, 7, 12, 0, 0, tzinfo=UTC)
SCHED = {"default": {"daily": {"interval": "1d", "keep": 2}, "weekly": {"interval": "7d", "keep": 2}}}
TAGS = ["daily", "weekly", "manual:a", "manual:ü b", "old"]
JOBS = ["vm01", "vm-2.x_y", "VM01"]


def rest(m):
    return digest(json.dumps([m["timestamp"].isoformat(), m["stats"], m["trust"]], sort_keys=True, default=str).encode())


def view(repo):
    if not repo.is_dir():
        return {}
    res = {}
    for u, m in revs.read_revs(repo).items():
        res[u] = dict(tags=sorted(m.get("tags") or []), orig=sorted(m.get("orig_tags") or []), server=m.get("server", ""),
                      clean="duration" in m.get("stats", {}), rest=rest(m))
    return res


def repo_at(path):
    from backy.repository import Repository
    from backy.schedule import Schedule

    s = Schedule()
    s.configure(SCHED["default"])
    r = Repository(path, s, nolog())
    r.connect()
    return r


class Proxy:
    """Between the mirror and one peer."""

    def __init__(self, world, name, k, target):
        self.w, self.name, self.k, self.target = world, name, k, target
        self.plan = {}
        self.seen = []
        self.extra = []

    async def start(self):
        from aiohttp import web

        app = web.Application()
        app.router.add_route("*", "/{tail:.*}", self.handle)
        self.runner = web.AppRunner(app, access_log=None)
        await self.runner.setup()
        addr, port = address(self.k)
        self.url = f"http://{addr}:{port}"
        for _ in range(50):
            try:
                self.site = web.TCPSite(self.runner, addr, port)
                await self.site.start()
                return
            except OSError:
                await asyncio.sleep(0.05)
        raise RuntimeError("cannot listen")

    async def stop(self):
        await self.runner.cleanup()

    def kind(self, req):
        p = req.path
        if req.method == "PUT" and p.endswith("/tags"):
            return "put", p.split("/")[-2]
        if p.endswith("/touch"):
            return "touch", ""
        if p.endswith("/purge"):
            return "purge", ""
        if p.endswith("/revs"):
            return "revs", ""
        return "other", p

    async def handle(self, req):
        import aiohttp
        from aiohttp import web

        kind, arg = self.kind(req)
        fate = self.plan.get((kind, arg)) or self.plan.get(kind) or "ok"
        body = await req.read()
        if fate != "ok" and isinstance(fate, str) and fate.startswith("edit"):
            self.w.owner_edit(self.name, arg, fate)
            fate = "ok"
        self.seen.append((kind, arg, fate))
        if fate == "hang":
            await asyncio.sleep(7200)
        if fate == "lost":
            req.transport.close()
            return web.Response()
        if isinstance(fate, int):
            return web.Response(status=fate)
        if fate == "html":
            return web.Response(text="<html>", content_type="text/html")
        async with aiohttp.ClientSession() as s:
            async with s.request(req.method, self.target + req.path_qs, data=body,
                                 headers={k: v for k, v in req.headers.items() if k in ("Authorization", "taskid", "Content-Type")}) as r:
                data = await r.read()
                if fate == "unanswered":
                    req.transport.close()
                    return web.Response()
                if kind == "revs" and r.status == 200 and self.extra:
                    data = json.dumps(json.loads(data) + self.extra).encode()
                return web.Response(status=r.status, body=data, headers={"Content-Type": r.headers.get("Content-Type", "text/plain")})


class SyncWorld:
    def __init__(self, d, rng):
        self.d, self.rng = d, rng
        self.job = rng.choice(JOBS)
        self.steps, self.shown = [], []
        self.names = {}
        self.locks = {}
        self.clock = NOW

    def uid(self, u):
        return self.names.setdefault(u, f"r{len(self.names) + 1}")

    def short(self, v):
        return {self.uid(u): r for u, r in v.items()}

    async def start(self):
        rng = self.rng
        self.n = rng.choice([1, 2, 2, 3])
        self.peers = {}
        self.proxies = {}
        self.mode = {}
        self.all = [f"p{i}" for i in range(self.n)]
        for i, name in enumerate(self.all):
            self.mode[name] = rng.choice(["dead", "dead", "dead", "active", "unknown"])
            s = Server(self.d, 1 + i, name=name, schedules=SCHED, jobs={}, tokens={"tok-m": "m"})
            self.peers[name] = s
            self.arrange(name)
            await s.idle()
            await s.serve()
            p = Proxy(self, name, 10 + i, s.url)
            await p.start()
            self.proxies[name] = p
        self.m = Server(self.d, 0, name="m", schedules=SCHED, jobs={self.job: {"source": file_source(self.d / "x"), "schedule": "default"}},
                        peers={n: {"url": self.proxies[n].url, "token": "tok-m"} for n in self.all})
        await self.m.idle()
        self.repo = self.m.base / self.job
        for _ in range(rng.choice([0, 1, 3])):
            self.new_rev(self.repo)
        for n in self.all:
            for _ in range(rng.choice([0, 1, 2, 4])):
                if self.mode[n] != "unknown":
                    self.new_rev(self.peers[n].base / self.job)

    async def stop(self):
        for l in self.locks.values():
            l.close()
        for p in self.proxies.values():
            await p.stop()
        for s in [self.m, *self.peers.values()]:
            await s.stop()

    def path(self, n):
        return self.peers[n].base / self.job

    def arrange(self, name):
        """the configuration of a peer for its mode"""
        s = self.peers[name]
        mode = self.mode[name]
        s.conf["jobs"] = {self.job: {"source": file_source(self.d / "x"), "schedule": "default"}} if mode == "active" else {}
        s.write()
        p = s.base / self.job
        if mode == "unknown":
            if p.exists():
                rmtree(s.root / "hidden")
                p.rename(s.root / "hidden")
        else:
            if (s.root / "hidden").exists():
                rmtree(p)
                (s.root / "hidden").rename(p)
            p.mkdir(exist_ok=True)

    def rearrange(self, name):
        self.arrange(name)
        d = self.peers[name].daemon
        d._read_config()
        d._apply_config()
        for j in d.jobs.values():
            j.stop()

    def new_rev(self, repo, server="", u=None):
        rng = self.rng
        self.clock += datetime.timedelta(seconds=rng.choice([1, 3600, 86400]), microseconds=rng.choice([0, 1, 999999]))
        u = u or uuidlib.UUID(int=rng.getrandbits(128)).hex[:22]
        tags = rng.sample(TAGS, rng.choice([0, 1, 1, 1, 1, 2, 2, 3]))
        r = revdict(u, self.clock, tags=tags, orig=tags if server else [], trust=rng.choice(["trusted", "verified", "distrusted"]), server=server,
                    duration=rng.choice([1.5, 900, 0.25, None]) if not server else 2.5, written=rng.choice([0, 12345]))
        write_rev(repo, r)
        return u, r

    # -- what happens in between
    def owner_edit(self, name, u, how):
        if self.mode[name] == "unknown":
            return
        try:
            r = repo_at(self.path(name))
            if u not in r._by_uuid:
                return
            if how == "edit-rm":
                r.rm([r.find_by_uuid(u)])
            else:
                r.tags("set", u, set(self.rng.sample(TAGS, self.rng.choice([0, 1, 1, 1]))), force=True)
        except (BlockingIOError, FileNotFoundError):
            return
        v = view(self.path(name))
        o = self.now_own[name] = dict(self.now_own[name])
        o.pop(u, None)
        if u in v:
            o[u] = v[u]

    def churn(self):
        rng = self.rng
        for n in self.all:
            if self.mode[n] != "unknown":
                p = self.path(n)
                while rng.random() < 0.4:
                    self.new_rev(p, server=rng.choice(["", "", "", "", "m"]))
                r = repo_at(p)
                for x in list(r.local_history):
                    z = rng.random()
                    if z < 0.15:
                        r.tags("set", x.uuid, set(rng.sample(TAGS, rng.choice([0, 1, 1, 2]))), force=True)
                    elif z < 0.25:
                        r.rm([x])
                    elif z < 0.4:
                        r.distrust([x])
            if rng.random() < 0.12:
                self.mode[n] = rng.choice(["dead", "active", "unknown"])
                self.rearrange(n)
        if rng.random() < 0.3:
            self.new_rev(self.repo)
        if rng.random() < 0.15:
            self.new_rev(self.repo, server="former")
        if rng.random() < 0.1:
            for f in self.repo.glob("*.rev"):
                if rng.random() < 0.3:
                    f.unlink()

    def edit_mirror(self):
        """the user or the expiry changes tags here"""
        rng = self.rng
        r = repo_at(self.repo)
        for x in list(r.history):
            z = rng.random()
            if x.server:
                if z < 0.35:
                    r.tags(rng.choice(["set", "add", "remove"]), x.uuid, set(rng.sample(TAGS, rng.choice([1, 2]))), force=True,
                           autoremove=rng.random() < 0.5)
                elif z < 0.6:
                    r.rm([x])
            elif z < 0.1:
                r.tags("add", x.uuid, {"manual:a"}, force=True)

    def hold(self, name, path):
        if path.is_dir():
            self.locks[name] = open(path / ".backup", "a+b")
            fcntl.flock(self.locks[name], fcntl.LOCK_EX | fcntl.LOCK_NB)

    def release(self):
        for l in self.locks.values():
            l.close()
        self.locks = {}

    def set_peers(self):
        """which peers are configured here, and reachable"""
        rng = self.rng
        conf = {}
        self.down, self.wrong = set(), set()
        for n in self.all:
            if rng.random() < 0.1:
                continue
            url = self.proxies[n].url
            tok = "tok-m"
            z = rng.random()
            if z < 0.1:
                addr, port = address(50)
                url = f"http://{addr}:{port}"
                self.down.add(n)
            elif z < 0.17:
                tok = "bad"
                self.wrong.add(n)
            conf[n] = {"url": url, "token": tok}
        self.m.conf["peers"] = conf
        self.m.write()
        d = self.m.daemon
        d._read_config()
        d._apply_config()
        for j in d.jobs.values():
            j.stop()
        self.conf = conf

    async def call(self, fn):
        try:
            await fn()
            return False, ""
        except Exception as e:
            return True, f"{type(e).__name__}: {e}"[:200]

    async def pull(self):
        rng = self.rng
        for n, p in self.proxies.items():
            p.seen, p.extra, p.plan = [], [], {}
            z = rng.random()
            if z < 0.4:
                p.plan[rng.choice(["touch", "revs"])] = rng.choice(["lost", "unanswered", 500, 503, 404, 403, 401, "html", 502, "hang"])
                if p.plan.get("touch") == "html":
                    p.plan = {"revs": "html"}
        # somebody claims revisions that exist
        for n, p in self.proxies.items():
            if rng.random() < 0.25:
                here = revs.read_revs(self.repo)
                other = [m for q in self.all if q != n and self.mode[q] != "unknown" for m in revs.read_revs(self.path(q)).values()]
                pool = [m for m in here.values() if m.get("server") != n] + other
                mine = set(view(self.path(n)))
                for m in rng.sample(pool, min(len(pool), rng.choice([1, 2]))):
                    if m["uuid"] in mine or any(m["uuid"] == x["uuid"] for x in p.extra):
                        continue
                    x = dict(m, server=rng.choice(["", n]), tags=["claimed"], orig_tags=["x"], stats={"bytes_written": 1, "duration": 3.0})
                    if rng.random() < 0.5:
                        x["timestamp"] = self.clock
                    x["timestamp"] = x["timestamp"].isoformat()
                    p.extra.append(x)
        busy = rng.random() < 0.07
        if busy:
            self.hold("m", self.repo)
        m0 = view(self.repo)
        offers = {n: view(self.path(n)) for n in self.all}
        for n, p in self.proxies.items():
            for x in p.extra:
                y = dict(x, timestamp=datetime.datetime.fromisoformat(x["timestamp"]))
                offers[n][x["uuid"]] = dict(tags=x["tags"], orig=[], server="", clean=True, rest=rest(y))
        raised, err = await self.call(self.m.daemon.jobs[self.job].pull_metadata)
        m1 = view(self.repo)
        self.release()
        peers = {}
        for n in self.conf:
            p = self.proxies[n]
            out = "ok"
            if n in self.down:
                out = "away"
            else:
                f = [p.plan.get(k) for k in ("touch", "revs")]
                f = f[0] or f[1]
                if f in ("lost", "unanswered", "hang"):
                    # the connection breaks only if this request is made at all
                    out = "away"
                elif f in (404, 403):
                    out = "gone"
                elif f:
                    out = "err"
                if p.plan.get("revs") and n in self.wrong:
                    out = "err"  # the first request is refused already
                elif n in self.wrong and out == "ok":
                    out = "err"
                elif self.mode[n] == "unknown" and not p.plan.get("touch"):
                    out = "gone" if n not in self.wrong else "err"
            peers[n] = dict(out=out, revs=self.short(offers[n]))
        if busy:
            # refused as a whole
            peers = {n: dict(out="away", revs={}) for n in set(list(peers) + [r["server"] for r in m0.values() if r["server"]])}
        self.steps.append(dict(kind="pull", m0=self.short(m0), m1=self.short(m1), peers=peers, raised=raised, refused=busy))
        self.shown.append(dict(kind="pull", plans={n: str(p.plan) for n, p in self.proxies.items()}, error=err, claimed={n: len(p.extra) for n, p in self.proxies.items()}))

    async def push(self):
        rng = self.rng
        here = view(self.repo)
        for n, p in self.proxies.items():
            p.seen, p.extra, p.plan = [], [], {}
            for u, r in here.items():
                if r["server"] == n and rng.random() < 0.35:
                    p.plan[("put", u)] = rng.choice(["lost", "unanswered", 500, 503, 412, 404, 403, "edit", "edit", "edit-rm", "hang"])
            if rng.random() < 0.25:
                p.plan["purge"] = rng.choice(["lost", "unanswered", 500, 403])
        busy = rng.random() < 0.07
        if busy:
            self.hold("m", self.repo)
        locked = set()
        for n in self.all:
            if rng.random() < 0.12 and self.mode[n] != "unknown":
                self.hold(n, self.path(n))
                locked.add(n)
        for n in self.all:
            # what was asked for earlier
            if self.mode[n] != "unknown" and rng.random() < 0.7:
                (self.path(n) / ".purge_pending").unlink(missing_ok=True)
        m0 = view(self.repo)
        own0 = {n: view(self.path(n)) for n in self.all}
        self.now_own = dict(own0)
        mark0 = {n: (self.path(n) / ".purge_pending").exists() for n in self.all}
        raised, err = await self.call(self.m.daemon.jobs[self.job].push_metadata)
        m1 = view(self.repo)
        self.release()
        puts, purges = [], []
        tr = lambda f, n: "lost" if f == "hang" else "refused" if not isinstance(f, str) or n in self.wrong and f == "ok" else f
        own = {}
        for n in self.conf:
            p = self.proxies[n]
            if n in self.down:
                # every attempt is lost
                puts += [dict(server=n, rev=self.uid(u), fate="lost") for u, r in m0.items()
                         if r["server"] == n and r["clean"] and r["tags"] != r["orig"] and not busy]
            seen = set()
            for kind, arg, fate in p.seen:
                if n in self.wrong and fate == "unanswered":
                    fate = "lost"
                if kind == "put" and arg not in seen:
                    seen.add(arg)
                    puts.append(dict(server=n, rev=self.uid(arg), fate=tr(fate, n)))
                elif kind == "purge" and kind not in seen:
                    seen.add(kind)
                    purges.append(dict(server=n, fate=tr(fate, n)))
                elif kind not in ("put", "purge"):
                    puts.append(dict(server=n, rev="other-request", fate=tr(fate, n)))
            own[n] = dict(revs0=self.short(self.now_own[n]), revs1=self.short(view(self.path(n))), active=self.mode[n] == "active",
                          known=self.mode[n] != "unknown", locked=n in locked, marker0=mark0[n],
                          marker1=(self.path(n) / ".purge_pending").exists())
        for n in self.all:
            if n not in self.conf and self.proxies[n].seen:
                puts.append(dict(server=n, rev="former-peer", fate="ok"))
        if busy:
            # nothing may happen
            self.steps.append(dict(kind="push", m0=self.short(m0), m1=self.short(m1), own={}, puts=puts, purges=purges, raised=raised, refused=True))
        else:
            self.steps.append(dict(kind="push", m0=self.short(m0), m1=self.short(m1), own=own, puts=puts, purges=purges, raised=raised, refused=False))
        self.shown.append(dict(kind="push", plans={n: str(p.plan) for n, p in self.proxies.items()}, error=err, locked=sorted(locked)))


async def scene(d, rng, n, out):
    w = SyncWorld(d, rng)
    await w.start()
    try:
        for _ in range(n):
            w.churn()
            if rng.random() < 0.7:
                w.set_peers()
            elif not hasattr(w, "conf"):
                w.set_peers()
            if rng.random() < 0.75:
                await w.pull()
            w.edit_mirror()
            if rng.random() < 0.8:
                await w.push()
        out.append((w.steps, w.shown))
    finally:
        await w.stop()


def job(seed, n):
    out = []
    d = mkscratch("sync")
    try:
        vloop.run(lambda loop: scene(d, random.Random(seed), n, out), start=NOW)
    finally:
        rmtree(d)
    return out[0]


def check(c, kind):
    from common import CheckError, validate
    from pool import pmap
    from world import preload

    c.mc("SyncMC", "SyncMC.cfg" if c.quick else """SPECIFICATION Spec
CONSTANTS Revs = {r1, r2} Tags = {a, b} MaxEdit = 5 MaxLoss = 2 Compare = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS NoLostUpdate
PROPERTIES Converge Confirmed
""", workers=8)
    preload()
    n = 400 if c.quick else 5000
    jobs = [(c.rng.randrange(1 << 40), c.rng.choice([3, 5, 8])) for _ in range(n)]
    res = pmap(job, jobs, budget=45 if c.quick else 800)
    traces, shown, args = [], [], []
    for a, st, r in res:
        if st != "ok":
            raise CheckError(f"{a}: {r}")
        traces.append(r[0])
        shown.append(r[1])
        args.append(a)
    problems, stats = validate("SyncTrace", traces)
    c.add_traces(stats)
    sts = [s for t in traces for s in t]
    c.extra["pulls"] = sum(s["kind"] == "pull" for s in sts)
    c.extra["pushes"] = sum(s["kind"] == "push" for s in sts)
    c.extra["changes_pushed"] = sum(len(s["puts"]) for s in sts if s["kind"] == "push")
    c.extra["answers"] = {o: sum(p["out"] == o for s in sts if s["kind"] == "pull" for p in s["peers"].values()) for o in ("ok", "away", "gone", "err")}
    if traces:
        c.sample(traces[0][0])
    for ti, rec in problems:
        if rec["op"] == kind:
            k = rec["i"] - 1
            c.violation(rec["k"], dict(seed=args[ti], step=k + 1, case=shown[ti][k], state=traces[ti][k]))
    c.assumptions += ["peers answer well-formed JSON or an HTTP error; connections fail or break, or hang (virtual time)"]
