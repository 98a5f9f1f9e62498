"""Pending purges: the daemon's real loop over real repositories in virtual time;
the collections are the real source programs, paused to remove revisions and ask
again.  Every round is judged by Pending.tla."""
import asyncio
import fcntl
import os
import random
import shutil
from pathlib import Path

import vloop
import yaml
from common import CheckError, scratch_root, validate
from fexec import Exec, source_child, status
from pool import pmap
from procs import Points, settle
from world import CH, DEFAULT_SCHEDULE, World, nolog, preload

DAY = 86400
_tpl = {}


def template():
    """a repository with three revisions of an image"""
    if not _tpl:
        import tempfile
        root = Path(tempfile.mkdtemp(prefix="p24t-", dir=scratch_root()))
        w = World(root, name="tpl")
        for k in range(3):
            w.set_image(b"".join(bytes([65 + (i if i else k * 7)]) * CH for i in range(3)))
            rc = w.cli("backup", "manual:x%d" % k)
            w.tick(3600)
        if len(w.rev_files()) != 3 or len(w.chunk_files()) < 3:
            return None
        _tpl["p"] = w.repo
    return _tpl["p"]


class Entry:
    """one directory of the base directory"""

    def __init__(self, base, name, kind, rng):
        self.base, self.name, self.kind, self.rng = base, name, kind, rng
        self.path = base / name
        self.active = self.late = False
        self.lock = None
        self.program = True

    def make(self, tpl):
        k = self.kind
        if k == "link":
            t = self.base / self.target
            if self.rng.random() < 0.6:
                # something that is not in the base directory
                t = self.base.parent / "elsewhere"
                if not t.exists():
                    Entry(self.base.parent, "elsewhere", "rbd", self.rng).make(tpl)
                    (t / ".purge_pending").touch()
            self.path.symlink_to(t)
        elif k == "plainfile":
            self.path.write_text("x")
        elif k == "file":
            self.path.mkdir()
            self.config(dict(type="file", filename=str(self.path / "src")))
            src = sorted(tpl.glob("*.rev"))
            for f in src:
                if not f.is_symlink():
                    shutil.copy(f, self.path / f.name)
                    (self.path / f.stem).write_text("data of " + f.stem)
        else:
            shutil.copytree(tpl, self.path, symlinks=True)
            self.config(dict(type="rbd", pool="test", image="img"))
        return self

    def config(self, source):
        p = self.path / "config"
        p.unlink(missing_ok=True)
        p.write_text(yaml.safe_dump(dict(path=str(self.path), source=source, schedule=DEFAULT_SCHEDULE)))

    # -- state
    def marker(self):
        return not self.path.is_symlink() and os.path.lexists(self.path / ".purge_pending")

    def revisions(self):
        return [f for f in sorted(self.path.glob("*.rev")) if not f.is_symlink()]

    def referenced(self):
        import json
        refs = set()
        for f in self.revisions():
            m = yaml.safe_load(f.read_text()) if self.readable(f) else None
            if not m or m.get("server"):
                continue
            try:
                refs |= set(json.loads((self.path / f.stem).read_text())["mapping"].values())
            except (OSError, ValueError, KeyError, TypeError, AttributeError):
                pass
        return refs

    def readable(self, f):
        try:
            return isinstance(yaml.safe_load(f.read_text()), dict)
        except Exception:
            return False

    def garbage(self):
        if self.kind != "rbd":
            return []
        refs = self.referenced()
        return sorted(f for f in (self.path / "chunks").glob("*/*") if f.name.split(".")[0] not in refs)

    def rest(self):
        """everything that a collection has to leave alone"""
        if not self.path.is_dir() or self.path.is_symlink():
            return [str(self.path), os.readlink(self.path) if self.path.is_symlink() else "file"]
        g = {str(f) for f in self.garbage()}
        res = []
        for d, ds, fs in os.walk(self.path):
            for f in fs:
                p = os.path.join(d, f)
                if p in g or f.startswith(".purge") or f == "backy.log" or os.path.islink(p):
                    continue
                st = os.stat(p)
                res.append((p[len(str(self.path)):], st.st_size, st.st_mtime_ns if "chunks" not in p else 0))
        return sorted(res)

    def loads(self):
        if self.kind == "badconfig":
            return False
        try:
            c = yaml.safe_load((self.path / "config").read_text())
            ok = c["source"]["type"] in ("rbd", "file") and c["schedule"]
        except Exception:
            return False
        return bool(ok) and self.program and all(self.readable(f) for f in self.revisions())

    def ok(self):
        if not self.loads() or self.lock:
            return False
        if self.kind == "rbd":
            import json
            for f in self.revisions():
                try:
                    if yaml.safe_load(f.read_text()).get("server"):
                        continue
                    json.loads((self.path / f.stem).read_text())["mapping"]
                except Exception:
                    return False
        return True


def case(seed, root, nrounds):
    from backy.daemon import BackyDaemon
    from backy.daemon.scheduler import Job
    from backy.repository import Repository
    from backy.schedule import Schedule

    rng = random.Random(seed)
    base = Path(root) / "base"
    base.mkdir()
    tpl = template()
    rounds = []
    if tpl is None:
        return dict(rounds=[], error="template")
    entries = []
    names = ["vm1", "vm2", "vm 3", "-x", "ü", "job.1", "z"]
    rng.shuffle(names)
    kinds = ["rbd", rng.choice(["rbd", "file"]), rng.choice(["rbd", "file", "link", "plainfile"]), rng.choice(["rbd", "file"])]
    for n, k in zip(names, kinds[:rng.choice([1, 2, 3, 4])]):
        e = Entry(base, n, k, rng)
        e.target = entries[0].name if entries else "none"
        entries.append(e.make(tpl))
    real = [e for e in entries if e.kind in ("rbd", "file")]

    def repo_of(e):
        s = Schedule()
        s.configure(DEFAULT_SCHEDULE)
        return Repository(e.path, s, nolog())

    refused = []

    def ask(e):
        try:
            repo_of(e).set_purge_pending()
        except Exception as x:
            refused.append(repr(x))

    def remove_revision(e):
        rv = e.revisions()
        if rv:
            rng.choice(rv[-2:]).unlink()

    async def main(loop):
        d = BackyDaemon(Path(root) / "none", nolog())
        d.base_dir = base
        d.loop = loop
        d.jobs = {}
        ran = {}
        late = {}

        def start(args):
            path = args[args.index("-C") + 1]
            es = [e for e in entries if str(e.path) == path]
            e = es[0] if es else None
            ran[path] = ran.get(path, 0) + 1
            if e is not None and not e.program:
                raise FileNotFoundError(2, "no such program", args[0])
            n = late.get(path)
            pts = Points(base, pause_at=[n[1]], every_line=n[0] == "line", reads=n[0] == "read") if n else None
            ch = source_child(args, loop.now(), root, pts)

            def work():
                if n and settle(ch) == "paused":
                    e.late = True
                    if rng.random() < 0.8:
                        remove_revision(e)
                        e.before_rest = e.rest()
                    ask(e)
                    ch.resume()
                return status(ch.finish())

            async def run(_):
                return await loop.run_in_executor(None, work)

            return run

        def before_round():
            ran.clear()
            late.clear()
            for e in entries:
                e.late = False
                e.active = False
                e.program = True
                if e.lock:
                    e.lock.close()
                    e.lock = None
            for e in real:
                e.program = rng.random() < 0.95
                if rng.random() < 0.6:
                    remove_revision(e)
                    if rng.random() < 0.85:
                        ask(e)
                elif rng.random() < 0.3:
                    ask(e)
                r = rng.random()
                if r < 0.12:
                    p = e.path / "config"
                    p.unlink(missing_ok=True)
                    if rng.random() < 0.5:
                        p.write_text(rng.choice(["", "{", "a: b", "[]", "path: 3\nschedule: {}\nsource: 1"]))
                elif r < 0.2 and e.revisions():
                    f = rng.choice(e.revisions())
                    os.chmod(f, 0o600)
                    f.write_text(rng.choice(["", "{", "- 1"]))
                elif r < 0.27 and e.kind == "rbd" and e.revisions():
                    f = rng.choice(e.revisions())
                    m = e.path / f.stem
                    if m.exists():
                        os.chmod(m, 0o600)
                        m.write_text(rng.choice(["", "{", "{}"]))
                elif r < 0.37 and e.kind == "rbd":
                    e.lock = open(e.path / ".purge", "a+b")
                    fcntl.flock(e.lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
                elif r < 0.5:
                    # put in order again
                    e.config(dict(type="rbd", pool="test", image="img") if e.kind == "rbd"
                             else dict(type="file", filename="x"))
                    for f in e.revisions():
                        if not e.readable(f):
                            f.unlink()
                if rng.random() < 0.45:
                    k = rng.choice(["line", "effect", "read", "read"])
                    late[str(e.path)] = (k, rng.randrange(1, {"line": 2100 if e.kind == "rbd" else 500, "effect": 14, "read": 26}[k]))
                if rng.random() < 0.12:
                    e.active = True
            d.jobs = {e.name: Job(d, e.name, nolog()) for e in entries if e.active}
            for e in entries:
                e.d = dict(dir=e.path.is_dir() and not e.path.is_symlink(), active=e.active, marker=e.marker(),
                           loads=e.kind in ("rbd", "file") and e.loads(), ok=e.kind in ("rbd", "file") and e.ok(),
                           late=False, garbage=len(e.garbage()))
                e.before_rest = e.rest()

        def after_round():
            out = []
            for e in entries:
                e.d["late"] = e.late
                o = dict(ran=ran.get(str(e.path), 0), marker=e.marker(), garbage=len(e.garbage()),
                         same=e.rest() == e.before_rest)
                # the removal may have put things in order
                e.d["ok"] = e.d["ok"] or (e.late and e.kind in ("rbd", "file") and e.ok())
                if e.late and not e.d["ok"]:
                    # asked again while a failing collection ran: still pending
                    e.d["marker"] = True
                    e.d["garbage"] = o["garbage"]
                out.append(dict(n=ascii(e.name), kind=e.kind, d=dict(e.d), o=o))
            known = {str(e.path) for e in entries}
            if any(p not in known for p in ran):
                out.append(dict(n="elsewhere", kind="", d=dict(dir=False, active=False, marker=False, loads=False, ok=False, late=False, garbage=0),
                                o=dict(ran=1, marker=False, garbage=0, same=True)))
            rounds.append(out)

        with Exec(start):
            before_round()
            task = loop.create_task(d.purge_pending_backups())
            await asyncio.sleep(1)
            after_round()
            for r in range(1, nrounds):
                await asyncio.sleep(r * DAY - 1 - loop.time())
                before_round()
                await asyncio.sleep(2)
                after_round()
                if task.done():
                    break
            task.cancel()
            for e in entries:
                if e.lock:
                    e.lock.close()

    vloop.run(main)
    return dict(rounds=rounds, error="request-refused" if refused else "")


def job(seed, n):
    import tempfile
    root = tempfile.mkdtemp(prefix="p24-", dir=scratch_root())
    try:
        return case(seed, root, n)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(c):
    c.mc("PendingMC", "PendingMC.cfg", workers=8)
    preload()
    n = 200 if c.quick else 6000
    jobs = [(c.rng.randrange(1 << 40), c.rng.choice([2, 3, 4])) for _ in range(n)]
    res = pmap(job, jobs, budget=40 if c.quick else 800)
    traces, args = [], []
    for a, st, r in res:
        if st != "ok":
            raise CheckError(f"{a}: {r}")
        if r["error"]:
            c.violation(r["error"], dict(seed=a, what="three backups of an image do not give three revisions" if r["error"] == "template" else "asking for a purge raises"))
            continue
        traces.append(r["rounds"])
        args.append(a)
    problems, stats = validate("PendingTrace", traces)
    c.add_traces(stats)
    es = [e for t in traces for r in t for e in r]
    c.extra["entries_judged"] = len(es)
    c.extra["collections"] = sum(e["o"]["ran"] for e in es)
    c.extra["asked_again_meanwhile"] = sum(e["d"]["late"] for e in es)
    c.extra["failing"] = sum(e["o"]["ran"] > 0 and not e["d"]["ok"] for e in es)
    if traces:
        c.sample(traces[0][0])
    for ti, rec in problems:
        c.violation(rec["k"], dict(seed=args[ti], round=rec["i"], entry=rec["op"], case=traces[ti][rec["i"] - 1]))
    c.assumptions += ["time is virtual; the started programs are the real sources, run in forked processes"]
