"""Job loops of a real daemon in virtual time: programs and peers are stand-ins,
everything they see and do is recorded for Loop*/Slots*/Leader*/ConfigTrace.tla."""
import asyncio
import datetime
import fcntl
import json
import logging
import os
import random
import re
import uuid as uuidlib
from pathlib import Path

import yaml

import fexec
import revs
import vloop
from common import mkscratch, rmtree
from dmn import Server, address, file_source
from revs import UTC, revdict, write_rev
from world import nolog

# the same language, parsed faster
yaml.SafeLoader, yaml.SafeDumper = yaml.CSafeLoader, yaml.CSafeDumper
T0 = vloop.EPOCH
ZERO = datetime.datetime(1, 1, 1, tzinfo=UTC)
NAMES = ["vm01", "vm-2.x_y", "VM01", "ü b", "a+b", "x" * 40, "vm(1)", "vm01.x"]
ONLY = "gone-tag"
# what the next plan may be based upon
ENDS = {"start", "backup", "bend", "gend", "gc", "cb", "cend", "vanish"}


def key(m):
    return json.dumps([secs(m["timestamp"]), m["uuid"], sorted(m["tags"] or []), m.get("server", ""), "duration" in m["stats"]])


def secs(dt):
    return int((dt - T0).total_seconds() // 1)


class FakePeer:
    """Another server: answers as told, notes what it is asked."""

    def __init__(self, world, name, k):
        self.w, self.name, self.k = world, name, k
        self.mode = "ok"
        self.jobs = {}     # name -> dict(local_revs, last, status, next)
        self.revs = {}     # job -> {uuid: revdict}
        self.put = "ok"
        self.asked = None   # called before a status is shown
        self.fair = False   # bad modes concern the status only

    async def start(self):
        from aiohttp import web

        app = web.Application()
        app.router.add_route("*", "/{tail:.*}", self.handle)
        self.runner = web.AppRunner(app, access_log=None)
        await self.runner.setup()
        addr, port = address(self.k)
        self.url = f"http://{addr}:{port}"
        for _ in range(200):
            try:
                self.site = web.TCPSite(self.runner, addr, port)
                await self.site.start()
                return
            except OSError:
                await asyncio.sleep(0.05)
        raise RuntimeError("cannot listen")

    async def down(self):
        self.w.ev("down", peer=self.name)
        await self.site.stop()

    async def up(self):
        from aiohttp import web

        self.site = web.TCPSite(self.runner, *address(self.k))
        await self.site.start()
        self.w.ev("up", peer=self.name)

    async def stop(self):
        await self.runner.cleanup()

    def shown(self, filter):
        r = re.compile(filter) if filter else None
        iso = lambda t: None if t is None else (T0 + datetime.timedelta(seconds=t)).isoformat()
        return [dict(job=n, sla="OK", sla_overdue=0, status=j["status"], last_time=iso(j["last"]), last_tags="daily", last_duration=1.0,
                     next_time=iso(j["next"]), next_tags="daily", manual_tags="", problem_reports=0, unsynced_revs=0, local_revs=j["local_revs"])
                for n, j in self.jobs.items() if not r or r.search(n)]

    async def handle(self, req):
        from aiohttp import web

        w = self.w
        parts = req.path.strip("/").split("/")
        bad = None
        if parts[1] == "status" and self.asked:
            self.asked(self)
        if self.fair and parts[1] != "status":
            pass
        elif self.mode == "drop":
            req.transport.close()
            bad = web.Response()
        elif self.mode == "hang":
            await asyncio.sleep(7200)
        elif isinstance(self.mode, int):
            bad = web.Response(status=self.mode)
        elif self.mode == "html":
            bad = web.Response(text="<html>", content_type="text/html")
        elif self.mode == "badjson":
            bad = web.Response(text="{", content_type="application/json")
        if parts[1] == "status":
            return bad if bad is not None else web.json_response(self.shown(req.query.get("filter")))
        job = parts[2]
        if parts[-1] == "touch":
            w.ev("pull", job, peer=self.name)
            return bad if bad is not None else web.Response(status=204 if job in self.revs else 404)
        if parts[-1] == "revs":
            if bad is not None or job not in self.revs:
                return bad if bad is not None else web.Response(status=404)
            return web.json_response([dict(r, timestamp=r["timestamp"].isoformat()) for r in self.revs[job].values()])
        if parts[-1] == "tags":
            u = parts[-2]
            w.ev("push", job, peer=self.name, rev=u)
            body = await req.json()
            z = self.put if isinstance(self.put, int) else 204
            if bad is not None:
                return bad
            if z == 204:
                if u not in self.revs.get(job, {}):
                    return web.Response(status=404)
                if body["new_tags"]:
                    self.revs[job][u]["tags"] = body["new_tags"]
                else:
                    del self.revs[job][u]
            return web.Response(status=z)
        if parts[-1] == "purge":
            return bad if bad is not None else web.Response(status=202)
        return web.Response(status=404)


class LoopWorld:
    def __init__(self, d, rng, loop):
        self.d, self.rng, self.loop = d, rng, loop
        self.events = []
        self.alive = {}      # job -> list of running programs [(what, proc)]
        self.plans = {}      # job -> last plan shown
        self.locks = {}
        self.over = False
        self.peers = {}
        self.dirty = False
        self.outcome = lambda job, what: dict(rc=0, dur=5)
        self.canary = 0
        self.vanish = None
        self.count = 0
        self.cache = {}
        self.many = False
        self.last_idle = -1
        self.waiting = []
        self.burst, self.nruns, self.nreq, self.runaway = (0, 0), 0, 0, False

    def t(self):
        return secs(self.loop.now())

    def ev(self, k, job="", **kw):
        if k in ENDS and not self.over:
            kw["last"], kw["hist"] = self.summary(job)
        if not self.over:
            self.events.append(dict(k=k, j=job, t=self.t(), **kw))
            self.dirty = True
            self.nreq += k == "run"
            if k == "backup":
                self.nruns += 1
                at, n = self.burst
                self.burst = (self.t(), n + 1 if at == self.t() else 1)
                if self.burst[1] > 100 or self.nruns > 30 + 3 * self.nreq + max(1, len(self.plans)) * (10 + self.t() / 1000):
                    self.stuck()

    def stuck(self):
        """this would go on for ever"""
        if not self.runaway:
            self.runaway = True
            for n, j in self.daemon.jobs.items():
                self.events.append(dict(k="runaway", j=n, t=self.t()))
                if j._task:
                    j._task.cancel()
            self.over = True

    # -- the repository as it is on disk
    def view(self, job):
        p = self.base / job
        armed, self.vanishing.armed = self.vanishing.armed, None
        try:
            r = {}
            for f in sorted(p.glob("*.rev")) if p.is_dir() else []:
                if f.is_symlink():
                    continue
                st = f.stat()
                k = (str(f), st.st_mtime_ns, st.st_ino, st.st_size)
                if k not in self.cache:
                    self.cache[k] = revs.read_rev(f)
                m = self.cache[k]
                r[m["uuid"]] = m
            return r
        finally:
            self.vanishing.armed = armed

    def summary(self, job):
        last, n = {}, 0
        for m in self.view(job).values():
            n += 1
            if "duration" in m.get("stats", {}):
                for g in m.get("tags") or []:
                    last[g] = max(last.get(g, -10 ** 9), secs(m["timestamp"]))
        return last, n > 0

    def new_rev(self, job, **kw):
        self.count += 1
        u = f"c{self.count:02d}" + uuidlib.UUID(int=self.rng.getrandbits(128)).hex[:18]
        ts = kw.pop("ts")
        write_rev(self.base / job, revdict(u, T0 + datetime.timedelta(seconds=ts), **kw))
        return u

    # -- programs
    def start(self, args):
        if args[0] == str(self.callback):
            return self.run_callback(args)
        job = Path(args[args.index("-C") + 1]).name
        if "backup" in args[1:]:
            return self.run_backup(job, args[-1])
        if args[-1] == "gc":
            return self.run_gc(job)
        raise FileNotFoundError(args[0])

    def stored(self, job):
        try:
            return yaml.safe_load((self.base / job / "config").read_text())
        except Exception as e:
            return {"error": str(e)}

    def run_backup(self, job, u):
        v = self.view(job)
        o = self.outcome(job, "backup")
        left = sum(1 for x, m in v.items() if not m.get("server") and "duration" not in m.get("stats", {}) and x != u)
        m = v.get(u)
        fresh = m is not None and not m.get("server") and "duration" not in m["stats"] and 0 <= self.t() - secs(m["timestamp"]) <= 60
        c = self.stored(job)
        cls = self.speed(job)
        self.ev("backup", job, tags=sorted((m or {}).get("tags") or []), left=left, fresh=fresh, raised="raise" in o,
                busy=len(self.alive.get(job, [])), src=json.dumps(c.get("source"), sort_keys=True), sch=json.dumps(c.get("schedule"), sort_keys=True), cls=cls)
        if o.get("raise"):
            raise o["raise"]

        async def work(proc):
            me = ("backup", proc)
            self.alive.setdefault(job, []).append(me)
            lock = None
            try:
                try:
                    lock = open(self.base / job / ".backup", "a+b")
                    fcntl.flock(lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
                except BlockingIOError:
                    pass
                await asyncio.sleep(o["dur"])
                rc = o["rc"]
                if rc == 0:
                    p = self.base / job / f"{u}.rev"
                    r = revs.read_rev(p)
                    r["stats"] = {"bytes_written": 1, "duration": o.get("took", float(o["dur"]))}
                    write_rev(self.base / job, r)
                if o.get("leave"):
                    self.new_rev(job, ts=self.t(), tags=["daily"], duration=None)
                self.alive[job].remove(me)
                self.ev("bend", job, rc=rc)
                return rc
            except asyncio.CancelledError:
                self.ev("bterm", job)
                if o.get("stubborn"):
                    await asyncio.sleep(o["stubborn"])
                if me in self.alive[job]:
                    self.alive[job].remove(me)
                raise
            finally:
                if lock:
                    lock.close()
                if job in self.after_backup:
                    self.after_backup.remove(job)
                    self.lock(job)

        return work

    def speed(self, job):
        """as the last complete backup took"""
        ms = sorted((m for m in self.view(job).values() if "duration" in m["stats"]), key=lambda m: m["timestamp"])
        return "fast" if ms and ms[-1]["stats"]["duration"] < 600 else "slow"

    def run_gc(self, job):
        o = self.outcome(job, "gc")
        v = self.view(job)
        self.ev("gc", job, raised="raise" in o, disk=sorted(key(m) for m in v.values()), stale=sum(1 for m in v.values() if ONLY in (m.get("tags") or [])),
                pending=sorted(u for u, m in v.items() if m.get("server") in self.peers and sorted(m["tags"]) != sorted(m["orig_tags"]) and "duration" in m["stats"]))
        if o.get("raise"):
            raise o["raise"]

        async def work(proc):
            me = ("gc", proc)
            self.alive.setdefault(job, []).append(me)
            try:
                await asyncio.sleep(o["dur"])
                self.alive[job].remove(me)
                self.ev("gend", job, rc=o["rc"])
                return o["rc"]
            except asyncio.CancelledError:
                if me in self.alive[job]:
                    self.alive[job].remove(me)
                self.ev("gterm", job)
                raise

        return work

    def run_callback(self, args):
        job = args[1]
        o = self.outcome(job, "callback")
        if o.get("raise"):
            self.ev("cb", job, raised=True, told=[], disk=[])
            raise o["raise"]

        async def work(proc):
            me = ("callback", proc)
            self.alive.setdefault(job, []).append(me)
            try:
                await asyncio.sleep(0)
                try:
                    told = sorted(key(dict(m, timestamp=revs_time(m["timestamp"]))) for m in yaml.safe_load(proc.stdin_data))
                except Exception as e:
                    told = ["unreadable " + str(e)]
                self.ev("cb", job, raised=False, told=told, disk=sorted(key(m) for m in self.view(job).values()))
                await asyncio.sleep(o["dur"])
                self.alive[job].remove(me)
                self.ev("cend", job, rc=o["rc"])
                return o["rc"]
            except asyncio.CancelledError:
                if me in self.alive[job]:
                    self.alive[job].remove(me)
                self.ev("cterm", job)
                raise

        return work

    # -- locks of other programs
    def lock(self, job):
        if job in self.locks:
            return
        f = open(self.base / job / ".backup", "a+b")
        try:
            fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except BlockingIOError:
            f.close()
            return
        self.locks[job] = f
        self.ev("lock", job)

    def unlock(self, job):
        if job in self.locks:
            self.locks.pop(job).close()
            self.ev("unlock", job)

    # -- life
    async def begin(self, *, jobs, schedules, npeers=0, callback=True, worker_limit=1):
        self.callback = self.d / "callback" if callback else None
        self.after_backup = set()
        self.peers = {}
        for i in range(npeers):
            p = FakePeer(self, f"p{i}", 10 + i)
            await p.start()
            self.peers[p.name] = p
        self.s = Server(self.d, 0, schedules=schedules, jobs=jobs, worker_limit=worker_limit, callback=self.callback,
                        peers={n: {"url": p.url, "token": "tok"} for n, p in self.peers.items()})
        self.base = self.s.base
        d = self.daemon = self.s.create()
        d.loop = self.loop
        d.terminate = lambda: self.ev("terminate")
        return d

    async def go(self):
        for n in self.s.conf["jobs"]:
            self.ev("start", n)
        self.daemon._read_config()
        self.daemon._apply_config()
        await self.s.serve()
        self.loop.on_idle = self.sample
        self.loop.on_stuck = self.stuck

    def spread(self, job):
        return self.daemon.jobs[job].spread

    async def settle(self):
        """until nothing is left to do at this instant"""
        f = self.loop.create_future()
        self.waiting.append(f)
        await f

    async def sleep(self, n):
        await asyncio.sleep(n)
        await self.settle()

    def sample(self):
        for f in self.waiting:
            f.set_result(None)
        self.waiting = []
        if self.over:
            return
        for n, j in list(self.daemon.jobs.items()):
            p = (j.next_time, sorted(j.next_tags) if j.next_tags is not None else None)
            old = self.plans.get(n, (None, None, 0))
            mine = sum(1 for e in self.events if e["j"] == n and e["k"] not in ("run", "lock", "unlock")) if p[0] else 0
            if p[0] is not None and (p != old[:2] or mine != old[2]):
                last, hist = self.summary(n)
                self.plans[n] = (*p, mine + 1)
                self.ev("plan", n, next=secs(p[0]), tags=p[1] or [], last=last, hist=hist)
        if self.dirty or (self.many and self.t() != self.last_idle):
            self.ev("idle", cls={n: self.speed(n) for n in self.daemon.jobs} if self.many else {})
            self.dirty = False
            self.last_idle = self.t()

    async def run_now(self, job):
        from backy.daemon.api import Client

        self.ev("run", job)
        c = Client("me", self.s.url, "tok-cli", "tsk", nolog())
        try:
            await c.run_job(job)
        except Exception as e:
            self.ev("run-refused", job, err=f"{type(e).__name__}: {e}")
        finally:
            await c.close()
            await self.settle()

    async def reload(self, scheds, names, spec, iv, limits):
        """another configuration"""
        rng, conf = self.rng, self.s.conf
        old = json.loads(json.dumps(conf))
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            z = rng.random()
            js = conf["jobs"]
            out = [n for n in names if n not in js]
            if z < 0.3 and out:
                js[rng.choice(out)] = spec()
            elif z < 0.5 and js:
                del js[rng.choice(list(js))]
            elif z < 0.7 and js:
                js[rng.choice(list(js))] = spec()
            elif z < 0.85:
                conf["schedules"][rng.choice(list(scheds))] = iv()
            elif limits:
                conf["global"]["worker-limit"] = rng.choice([1, 2, 3])
        if rng.random() < 0.2:
            items = list(conf["jobs"].items())
            rng.shuffle(items)
            conf["jobs"] = dict(items)
        self.s.write()
        o, n = old["jobs"], conf["jobs"]
        new = json.loads(json.dumps(conf))
        gone = sorted(set(o) - set(n))
        changed = sorted(j for j in n if j in o and o[j] != new["jobs"][j])
        added = sorted(set(n) - set(o))
        self.ev("reload", gone=gone, changed=changed, now={j: start_info(self, j) for j in n})
        for j in gone:
            self.ev("gone", j)
        if conf["global"]["worker-limit"] != old["global"]["worker-limit"]:
            self.ev("limit", n=conf["global"]["worker-limit"])
        for j in changed + added:
            self.ev("start", j, **start_info(self, j))
            self.plans.pop(j, None)
        self.daemon.reload()
        await self.settle()
        await self.applied()

    async def applied(self):
        """what the daemon offers, what it stored"""
        from backy.daemon.api import Client

        c = Client("me", self.s.url, "tok-cli", "tsk", nolog())
        try:
            jobs = sorted(j["job"] for j in await c.fetch_status())
            dead = sorted(await c.list_backups())
        finally:
            await c.close()
        conf = self.s.conf
        say = lambda x: json.dumps(x, sort_keys=True)
        want = {n: say([j["source"], conf["schedules"][j["schedule"]]]) for n, j in conf["jobs"].items()}
        got = {}
        for n in conf["jobs"]:
            x = self.stored(n)
            got[n] = say([x.get("source"), x.get("schedule")])
        self.ev("applied", jobs=jobs, dead=dead, want=want, got=got, listed=sorted(conf["jobs"]),
                dirs=sorted(p.name for p in self.base.iterdir() if p.is_dir() and not p.is_symlink()))

    async def probe(self, job):
        """what this server says about itself"""
        from backy.daemon.api import Client

        c = Client("me", self.s.url, "tok-cli", "tsk", nolog())
        n = lambda x: NONE if x is None else secs(x)
        try:
            r = await c.fetch_status(f"^{re.escape(job)}$")
            shown = dict(revs=r[0]["local_revs"], last=n(r[0]["last_time"]), next=n(r[0]["next_time"]), running=bool(r[0]["status"])) if r else {}
        finally:
            await c.close()
        m = [m for m in self.view(job).values() if "duration" in m["stats"]]
        self.ev("probe", job, n=len(r), shown=shown,
                truth=dict(revs=sum(1 for x in m if not x.get("server")), last=max((secs(x["timestamp"]) for x in m), default=NONE)))

    def sched(self, config):
        """for Sched.tla, in seconds"""
        us = (T0 - ZERO) // datetime.timedelta(seconds=1)
        mult = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 7 * 86400}
        res = {}
        for g, c in config.items():
            iv = int(c["interval"][:-1]) * mult[c["interval"][-1]]
            res[g] = dict(interval=iv, off=us % iv)
        return res

    async def end(self):
        self.sample()
        self.ev("end", alive={n: len(a) for n, a in self.alive.items() if a})
        self.over = True
        self.loop.on_idle = None
        for f in self.locks.values():
            f.close()
        await self.s.stop()
        for p in self.peers.values():
            await p.stop()


def revs_time(ts):
    return datetime.datetime.fromisoformat(ts) if isinstance(ts, str) else ts


class Vanish:
    """Files vanish between being listed and being read."""

    def __init__(self):
        self.armed = None

    def __enter__(self):
        self.real = real = Path.glob
        me = self

        def glob(path, pattern, **kw):
            r = list(real(path, pattern, **kw))
            if me.armed and pattern.endswith(".rev") and str(path) == str(me.armed[0]):
                for f in r:
                    if f.name == me.armed[1] and not f.is_symlink():
                        f.unlink()
                        me.armed = None
                        me.world.ev("vanish", path.name)
                        break
            return iter(r)

        Path.glob = glob
        return self

    def __exit__(self, *a):
        Path.glob = self.real


def play(scene, seed, *args):
    """scene(world, *args) -> coroutine; its result"""
    logging.disable(logging.CRITICAL)
    d = mkscratch("loop")
    try:
        async def main(loop):
            w = LoopWorld(d, random.Random(seed), loop)
            with fexec.Exec(w.start), Vanish() as w.vanishing:
                w.vanishing.world = w
                return await scene(w, *args)

        return vloop.run(main, start=T0)
    finally:
        rmtree(d)


def schedules(rng):
    z = rng.random()
    if z < 0.4:
        return {"daily": {"interval": "1d", "keep": 2}}
    if z < 0.7:
        return {"hourly": {"interval": "3h", "keep": 2}, "daily": {"interval": "1d", "keep": 1}}
    if z < 0.85:
        return {"weekly": {"interval": "7d", "keep": 1}, "daily": {"interval": "1d", "keep": 2}}
    return {"x": {"interval": "30m", "keep": 3}}


def start_info(w, n):
    c = w.s.conf
    sch = w.sched(c["schedules"][c["jobs"][n]["schedule"]])
    last, hist = w.summary(n)
    job = c["jobs"][n]
    return dict(sched=sch, spread=spread_of(n, sch), slast=last, shist=hist, src=json.dumps(job["source"], sort_keys=True),
                sch=json.dumps(c["schedules"][job["schedule"]], sort_keys=True))


def spread_of(name, sch):
    """where a job's backups fall within the interval"""
    import hashlib

    r = random.Random()
    r.seed(int(hashlib.md5(name.encode("utf-8")).hexdigest(), 16))
    return r.randint(0, max(x["interval"] for x in sch.values()))


async def many(w, span, reloads, limits):
    """several jobs, few slots, a changing configuration (P17, P22)"""
    rng = w.rng
    w.many = True
    iv = lambda: {rng.choice(["x", "daily"]): {"interval": rng.choice(["30m", "1h", "2h", "5h"]), "keep": rng.choice([2, 3])}}
    scheds = {"a": iv(), "b": iv(), "default": iv()}
    names = rng.sample(NAMES, rng.choice([3, 4, 5, 6]))
    srcs = [w.d / k for k in ("x", "y", "z w")]
    spec = lambda: {"source": file_source(rng.choice(srcs)), "schedule": rng.choice(list(scheds))}
    jobs = {n: spec() for n in names[:rng.choice([2, 3, len(names)])]}
    limit = rng.choice([1, 1, 2, 3])
    await w.begin(jobs=jobs, schedules=scheds, worker_limit=limit, callback=True)
    kind = {n: rng.choice([5, 599, 600, 601, 2000, 4000]) for n in NAMES}
    trouble = rng.choice([0, 0.1, 0.4])
    for n in rng.sample(names, 2):
        if rng.random() < 0.5:
            (w.base / n).mkdir()
            w.new_rev(n, ts=-rng.randrange(1, 20000), tags=["x"], duration=rng.choice([1.0, 700.0]))
    for n in ("old one", "gone"):
        if rng.random() < 0.5:
            (w.base / n).mkdir()
    (w.base / "a-file").write_text("")

    def outcome(job, what):
        if what == "backup":
            if rng.random() < trouble:
                if rng.random() < 0.3:
                    return {"raise": OSError("no program")}
                return dict(rc=rng.choice([1, -9]), dur=rng.choice([0, 30, 2000]))
            return dict(rc=0, dur=max(0, kind[job] + rng.choice([0, 0, 1, -5, 500])), stubborn=rng.choice([0, 0, 5]))
        if what == "callback" and rng.random() < trouble / 2:
            return {"raise": OSError("no callback")}
        return dict(rc=0, dur=rng.choice([0, 1, 60, 700]))

    w.outcome = outcome
    w.origin = {"limit": limit}
    conf = w.s.conf
    for n in conf["jobs"]:
        w.ev("start", n, **start_info(w, n))
    w.daemon._read_config()
    w.daemon._apply_config()
    await w.s.serve()
    w.loop.on_idle, w.loop.on_stuck = w.sample, w.stuck
    await w.settle()
    await w.applied()
    end = w.t() + span
    while w.t() < end:
        z = rng.random()
        if z < 0.35 and w.daemon.jobs:
            n = rng.choice(list(w.daemon.jobs))
            if n in conf["jobs"]:
                await w.run_now(n)
        elif z < 0.35 + reloads:
            await w.reload(scheds, names, spec, iv, limits)
        elif z < 0.9:
            ts = [(j.next_time - w.loop.now()).total_seconds() for j in w.daemon.jobs.values() if j.next_time]
            nxt = min(ts, default=600)
            await w.sleep(max(1, rng.choice([1, 61, 600, 1800, nxt, nxt + 1, nxt + 100])))
    await w.sleep(9000)
    await w.applied()
    await w.end()
    return dict(limit=limit, events=w.events)


NONE = -999999999


async def leader(w, span):
    """one job, also known to other servers (P18)"""
    rng = w.rng
    job = rng.choice(NAMES)
    cfg = rng.choice([{"daily": {"interval": "1d", "keep": 3}}, {"x": {"interval": "2h", "keep": 4}}, {"x": {"interval": "30m", "keep": 9}}])
    tag = list(cfg)[0]
    np = rng.choice([1, 2, 2, 3, 3])
    callback = rng.random() < 0.8
    await w.begin(jobs={job: {"source": file_source(w.d / "x"), "schedule": "default"},
                        "other" + job: {"source": file_source(w.d / "x"), "schedule": "default"}},
                  schedules={"default": cfg}, npeers=np, callback=callback)
    trouble = rng.choice([0, 0.15, 0.5])
    tense = rng.random() < 0.5
    lookalikes = [job + "x", "x" + job, job.replace(".", "Q").replace("+", "a"), job[:-1], job.upper() + "-", ".*"]

    def own(local=True):
        return sum(1 for m in w.view(job).values() if "duration" in m["stats"] and not m.get("server"))

    def state(p):
        due = w.due or w.t()
        n = own()
        z = rng.random()
        if z < trouble:
            p.mode = rng.choice(["drop", "hang", 500, 401, 404, "html", "badjson"])
        else:
            p.mode = "ok"
        p.jobs = {}
        for o in rng.sample(lookalikes, rng.choice([0, 1, 3])):
            if o != job:
                p.jobs[o] = dict(local_revs=n + 7, last=due + rng.choice([0, -100, -9999]), status=rng.choice(["", "running"]), next=due)
        if rng.random() < 0.9:
            near = rng.choice([-20000, -600, -301, -300, -299, -30, 0, 40, 5000])
            p.jobs[job] = dict(
                local_revs=max(0, n + rng.choice([-1, 0, 1, 1, 2, 3])) if rng.random() < 0.95 else 0,
                last=None if rng.random() < 0.1 else due + (rng.choice([-90000, -20000, -600, -301]) if tense and rng.random() < 0.85 else near),
                status="" if rng.random() < (0.05 if tense else 0.15) else rng.choice(["running (slow)", "waiting for deadline", "failed", "0"]),
                next=None if rng.random() < 0.5 else due + rng.choice([-5, 0, 100, 299] if tense else [-90000, -5, 0, 100, 299, 300, 301, 400, 86400]))
        if rng.random() < 0.3:
            x = dict(p.jobs)
            p.jobs = {k: x[k] for k in sorted(x)}

    def asked(p):
        if rng.random() < (0.35 if w.polling else 0.75):
            state(p)
        elif rng.random() < 0.5 and job in p.jobs:
            # it has just finished
            p.jobs[job]["last"] = w.t() - 1
        w.polling = True
        j = p.jobs.get(job)
        ans = {"kind": "err"} if p.mode != "ok" else {"kind": "none"} if not j else dict(
            kind="job", revs=j["local_revs"], last=NONE if j["last"] is None else j["last"], next=NONE if j["next"] is None else j["next"], running=bool(j["status"]))
        if ans["kind"] == "job" and j["last"] is not None:
            # what it says is what it has
            u = f"{p.name}r{j['last']}"
            p.revs[job] = {u: revdict(u, T0 + datetime.timedelta(seconds=j["last"]), tags=[tag])}
        w.ev("ask", job, peer=p.name, ans=ans, own=own())

    w.due, w.polling = None, False
    for p in w.peers.values():
        p.asked, p.fair = asked, True
        p.revs[job] = {}
        state(p)
    for n in (job, "other" + job):
        (w.base / n).mkdir()
    for _ in range(rng.choice([0, 1, 3])):
        w.new_rev(job, ts=-rng.randrange(1, 20000), tags=[tag], duration=rng.choice([1.0, 1.0, None]))

    def outcome(j, what):
        if what == "backup" and rng.random() < 0.2:
            return dict(rc=1, dur=rng.choice([0, 30, 900]))
        return dict(rc=0, dur=rng.choice([0, 1, 30, 700]))

    w.outcome = outcome
    await w.go()
    w.daemon.jobs["other" + job].stop()
    await w.settle()
    end = w.t() + span
    isdown = set()
    while w.t() < end:
        j = w.daemon.jobs[job]
        if j.next_time:
            w.due, w.polling = secs(j.next_time), False
        z = rng.random()
        if z < 0.12:
            await w.run_now(job)
        elif z < 0.22:
            w.new_rev(job, ts=w.t() - rng.randrange(1, 5000), tags=["manual:k"], duration=rng.choice([1.0, 1.0, None]), **rng.choice([{}, {}, {"server": "p0"}]))
            w.ev("own", job, own=own())
        elif z < 0.3:
            v = [u for u, m in w.view(job).items() if not m.get("server") and "duration" in m["stats"]]
            if v:
                (w.base / job / (rng.choice(v) + ".rev")).unlink()
                w.ev("own", job, own=own())
        elif z < 0.36:
            p = rng.choice(list(w.peers.values()))
            if p.name in isdown:
                isdown.remove(p.name)
                await p.up()
            else:
                isdown.add(p.name)
                await p.down()
        elif z < 0.45:
            await w.probe(job)
        nxt = (j.next_time - w.loop.now()).total_seconds() if j.next_time else 0
        await w.sleep(rng.choice([1, 150, 301, max(1, nxt - 1), max(1, nxt), max(1, nxt + 1), max(1, nxt + 700), max(1, nxt + 2000)]))
    await w.sleep(1200)
    await w.end()
    return dict(job=job, peers=sorted(w.peers), events=w.events)


async def single(w, span):
    """one job with every kind of trouble (P16)"""
    rng = w.rng
    job = rng.choice(NAMES)
    cfg = schedules(rng)
    np = rng.choice([0, 0, 1, 2])
    trouble = rng.choice([0, 0.2, 0.5, 0.85, 1.0])
    callback = rng.random() < 0.85
    await w.begin(jobs={job: {"source": file_source(w.d / "x"), "schedule": "default"}}, schedules={"default": cfg}, npeers=np, callback=callback)
    for p in w.peers.values():
        if rng.random() < 0.5:
            p.revs[job] = {}
            for k in range(rng.choice([1, 3])):
                ts = -rng.randrange(1, 40) * 86400
                u = f"{p.name}{k:02d}" + uuidlib.UUID(int=rng.getrandbits(128)).hex[:16]
                p.revs[job][u] = revdict(u, T0 + datetime.timedelta(seconds=ts), tags=[rng.choice(list(cfg))])
        if rng.random() < 0.3:
            p.put = 500
    (w.base / job).mkdir()
    for _ in range(rng.choice([0, 0, 1, 3])):
        w.new_rev(job, ts=-rng.randrange(1, 3 * 86400), tags=rng.sample(list(cfg), 1), duration=rng.choice([1.0, 700.0, None]))

    def outcome(job, what):
        if what == "backup" and rng.random() < trouble:
            z = rng.random()
            if z < 0.15:
                return {"raise": rng.choice([OSError("no program"), PermissionError("x"), BlockingIOError("x")])}
            if z < 0.5:
                w_lock = rng.random() < 0.3
                if w_lock:
                    w.after_backup.add(job)
                return dict(rc=0, dur=rng.choice([0, 1, 30, 4000]), leave=rng.random() < 0.3)
            return dict(rc=rng.choice([1, 2, -9, -15, 255]), dur=rng.choice([0, 1, 30, 4000]), leave=rng.random() < 0.4)
        if what != "backup" and rng.random() < trouble * 0.4:
            if rng.random() < 0.6:
                return {"raise": OSError("no program")}
            return dict(rc=rng.choice([1, -9]), dur=1)
        return dict(rc=0, dur=rng.choice([0, 1, 30, 700]))

    w.outcome = outcome
    await w.go()
    await w.settle()
    end = w.t() + span
    while w.t() < end:
        z = rng.random()
        j = w.daemon.jobs[job]
        if z < 0.3:
            await w.run_now(job)
            if rng.random() < 0.2:
                await w.sleep(1)
                await w.run_now(job)
        elif z < 0.45:
            w.lock(job) if job not in w.locks else w.unlock(job)
        elif z < 0.6:
            w.new_rev(job, ts=w.t() - rng.randrange(1, 90000), tags=[ONLY] if rng.random() < 0.6 else ["manual:k"], duration=1.0)
        elif z < 0.75:
            w.new_rev(job, ts=w.t() - rng.randrange(1, 90000), tags=["daily"], duration=None)
        elif z < 0.8:
            v = [u for u, m in w.view(job).items() if not m.get("server")]
            if v:
                w.vanishing.armed = (w.base / job, rng.choice(v) + ".rev")
        if job in w.locks and rng.random() < 0.5:
            w.unlock(job)
        nxt = (j.next_time - w.loop.now()).total_seconds() if j.next_time else 0
        await w.sleep(rng.choice([1, 61, 3600, max(0, nxt - 1), max(0, nxt), max(0, nxt + 1), max(0, nxt + 1), nxt + 30000 if nxt < 90000 else 1]))
    w.unlock(job)
    await w.sleep(7 * 3600)
    spread = w.spread(job)
    await w.end()
    return dict(job=job, sched=w.sched(cfg), spread=spread, peers=sorted(w.peers), cbconf=callback, limit=1, events=w.events)


