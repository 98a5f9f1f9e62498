"""Real `backyd` processes (the daemon's own main()) sharing base directories."""
import asyncio
import json
import os
import random
import signal
import sys
import time
from pathlib import Path

import yaml

from common import mkscratch, rmtree
from dmn import address
from procs import Child
from world import nolog

SCHED = {"default": {"daily": {"interval": "1d", "keep": 3}}, "other": {"weekly": {"interval": "7d", "keep": 2}}}


class Daemon:
    def __init__(self, w, name, k):
        self.w, self.name = w, name
        addr, port = address(50 + k)
        self.url = f"http://{addr}:{port}"
        self.child = None
        self.dir = w.d / name
        self.dir.mkdir()
        (self.dir / "sub").mkdir()
        self.conf = {"global": {}, "api": {"addrs": addr, "port": port, "tokens": {"tok": "cli"}, "cli-default": {"token": "tok"}},
                     "schedules": SCHED, "jobs": {}}

    def write(self):
        # a changed configuration replaces the file
        tmp = self.dir / "new"
        tmp.write_text(yaml.safe_dump(self.conf))
        tmp.rename(self.dir / "backy.conf")

    def start(self, cwd, path):
        def body():
            import asyncio.subprocess as asp

            async def none(*a, **kw):
                raise FileNotFoundError("no programs here")

            asyncio.create_subprocess_exec = asp.create_subprocess_exec = none
            os.chdir(cwd)
            sys.argv = ["backyd", "-c", str(path), "-l", str(self.dir / "log")]
            import backy.daemon

            asyncio.set_event_loop(asyncio.new_event_loop())
            backy.daemon.main()

        self.child = Child(body)

    def wait_up(self, timeout=20):
        """True: it answers; else how it ended"""
        end = time.time() + timeout
        while time.time() < end:
            if self.child.wait(0.01) == "done":
                r = self.child.finish(5)
                self.child = None
                return r
            if self.status() is not None:
                return True
        raise RuntimeError("neither running nor ended")

    def status(self):
        from backy.daemon.api import Client

        async def ask():
            c = Client("me", self.url, "tok", "tsk", nolog())
            try:
                return sorted(j["job"] for j in await c.fetch_status()), sorted(await c.list_backups())
            finally:
                await c.close()

        try:
            return asyncio.run(asyncio.wait_for(ask(), 5))
        except Exception:
            return None


class World:
    def __init__(self, d, rng):
        self.d, self.rng, self.events = d, rng, []
        self.bases = []
        for b in ("base", "base.old"):
            (d / "data" / b).mkdir(parents=True)
            self.bases.append(d / "data" / b)
        (d / "link").symlink_to(d / "data" / "base")
        (d / "dir").symlink_to(d / "data")
        self.ds = [Daemon(self, f"d{i}", i) for i in range(3)]

    def ev(self, k, j="", **kw):
        self.events.append(dict(k=k, j=j, t=len(self.events), **kw))

    def spell(self):
        """a base directory (its index), and a way to say it"""
        d = str(self.d)
        if self.rng.random() < 0.2:
            return 1, self.rng.choice([d + "/data/base.old", d + "/dir/base.old"])
        return 0, self.rng.choice([d + "/data/base", d + "/data/base", d + "/data/base/", d + "/link", d + "/dir/base", d + "/data/x/../base", d + "/data/./base"])

    def jobs(self):
        src = lambda: {"source": {"type": "file", "filename": str(self.d / self.rng.choice("xyz"))}, "schedule": self.rng.choice(list(SCHED))}
        return {n: src() for n in self.rng.sample(["vm01", "vm02", "vm-3"], self.rng.choice([1, 2, 3]))}

    def seen(self, b):
        """what lies in the base directory"""
        r = {}
        for p in sorted(self.bases[b].iterdir()):
            f = p / "config"
            r[p.name] = f.read_text() if f.exists() else ""
        return r

    def launch(self, x):
        (self.d / "data" / "x").mkdir(exist_ok=True)
        x.b, s = self.spell()
        x.conf["global"]["base-dir"] = s
        x.conf["jobs"] = self.jobs()
        x.write()
        cwd, path = self.rng.choice([("/", x.dir / "backy.conf"), (x.dir, "backy.conf"), (x.dir / "sub", "../backy.conf"), (x.dir, "./backy.conf")])
        x.start(cwd, path)

    def begun(self, x, before):
        r = x.wait_up()
        ok = r is True
        self.ev("dstart", x.name, base=x.b, ok=ok, refused=r == ("exit", 69), how="" if ok else str(r)[:200], touched=not ok and before is not None and before != self.seen(x.b))
        if ok:
            self.applied(x)

    def applied(self, x, state=None):
        jobs, dead = state or x.status() or ([], [])
        say = lambda v: json.dumps(v, sort_keys=True)
        want = {n: say([j["source"], SCHED[j["schedule"]]]) for n, j in x.conf["jobs"].items()}
        got = {}
        for n in x.conf["jobs"]:
            try:
                c = yaml.safe_load((self.bases[x.b] / n / "config").read_text())
                got[n] = say([c.get("source"), c.get("schedule")])
            except Exception as e:
                got[n] = type(e).__name__
        self.ev("applied", x.name, jobs=jobs, dead=dead, listed=sorted(x.conf["jobs"]), want=want, got=got,
                dirs=sorted(p.name for p in self.bases[x.b].iterdir() if p.is_dir()))

    def end(self, x, sig):
        os.kill(x.child.pid, sig)
        r = x.child.finish(20)
        x.child = None
        self.ev("dend", x.name, base=x.b, clean=sig == signal.SIGKILL or r == ("ok", None), how=str(r)[:200])

    def reload(self, x):
        if self.rng.random() < 0.85:
            x.conf["jobs"] = self.jobs()
        x.write()
        os.kill(x.child.pid, signal.SIGHUP)
        end = time.time() + 3
        while time.time() < end:
            if x.child.wait(0.02) == "done":
                r = x.child.finish(5)
                x.child = None
                self.ev("dgone", x.name, base=x.b, how=str(r)[:200])
                return
            s = x.status()
            if s and s[0] == sorted(x.conf["jobs"]):
                break
        # the files are written before the jobs change
        time.sleep(0.05)
        self.applied(x)

    def play(self, steps):
        rng = self.rng
        for _ in range(steps):
            x = rng.choice(self.ds)
            z = rng.random()
            if x.child is None:
                y = [o for o in self.ds if o.child is None and o is not x]
                if y and z < 0.25:
                    # both at once
                    y = rng.choice(y)
                    for o in (x, y):
                        self.launch(o)
                    rs = [(o, o.wait_up()) for o in (x, y)]
                    for o, r in sorted(rs, key=lambda p: p[1] is not True):
                        self.ev("dstart", o.name, base=o.b, ok=r is True, refused=r == ("exit", 69), how="" if r is True else str(r)[:200], touched=False)
                    for o, r in rs:
                        if r is True:
                            self.applied(o)
                else:
                    # nobody else changes anything meanwhile
                    b4 = [self.seen(b) for b in (0, 1)]
                    self.launch(x)
                    self.begun(x, b4[x.b])
            elif z < 0.35:
                self.end(x, rng.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT, signal.SIGKILL]))
            else:
                self.reload(x)
        for x in self.ds:
            if x.child:
                self.end(x, signal.SIGTERM)


def play(seed, steps):
    d = mkscratch("backyd")
    w = World(d, random.Random(seed))
    try:
        w.play(steps)
        return dict(events=w.events)
    finally:
        for x in w.ds:
            if x.child:
                x.child.kill()
        rmtree(d)
