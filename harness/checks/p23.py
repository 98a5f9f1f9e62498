"""The clean-up of old backups: real `purge_old_files` loops over real trees
(as nobody, in virtual time), every round judged by Purge.tla."""
import asyncio
import os
import random
from pathlib import Path

import vloop
from common import CheckError, validate
from pool import pmap
from unpriv import call, open_scratch, own_dir, wipe
from world import nolog, preload

DAY = 86400
LIMIT = 93 * DAY
NAMES = ["vm1", "vm 2", ".hidden", "ü", "a\nb", "-rf", "x.lock", "chunks", "config", "deep", "q" * 200, b"\xff\xfe".decode("utf-8", "surrogateescape"),
         "last", ".purge_pending", "backy.log", "*", "00", "u1.rev"]
# age in seconds before now: relative to the limit
AGES_OLD = [LIMIT + 0.01, LIMIT + 1, LIMIT + 60, LIMIT + DAY, LIMIT + 300 * DAY, 40 * 365 * DAY]
AGES_NEW = [LIMIT - 0.01, LIMIT - 1, LIMIT - 60, LIMIT - DAY, 0, 5 * DAY, DAY, -3600]


class Tree:
    def __init__(self, root, rng):
        self.rng = rng
        self.base = os.path.join(root, "a/b/base")
        os.makedirs(self.base)
        self.outside = os.path.join(root, "a/outside")
        self.make_outside()
        self.ages = {}

    def make_outside(self):
        for d in ("", "old", "old/sub", "new"):
            os.makedirs(os.path.join(self.outside, d), exist_ok=True)
        for f in ("old/file", "old/sub/file", "new/file", "file"):
            open(os.path.join(self.outside, f), "w").write("precious")

    def touch(self, p, age, now):
        t = now - age
        os.utime(p, ns=(int(t * 1e9), int(t * 1e9)), follow_symlinks=False)

    def fill(self, d, depth, mode, made):
        """mode: how many entries are recent"""
        rng = self.rng
        names = rng.sample(NAMES, rng.choice([0, 1, 1, 2, 3]))
        for n in names:
            p = os.path.join(d, n)
            if os.path.lexists(p):
                continue
            k = rng.choice(["dir", "dir", "file", "file", "link"]) if depth < 4 else "file"
            self.entry(p, k, depth, mode, made)

    def entry(self, p, k, depth, mode, made):
        rng = self.rng
        if k == "dir":
            os.mkdir(p)
            self.fill(p, depth + 1, mode, made)
        elif k == "file":
            if rng.random() < 0.1:
                os.mkfifo(p)
            else:
                open(p, "w").write("x")
        else:
            target = rng.choice([self.outside + "/old", self.outside + "/new", self.outside + "/file", "nowhere",
                                 self.base, "..", ".", self.base + "/vm1", "/proc/self/nowhere"])
            os.symlink(target, p)
        made.append(p)

    def grow(self, now):
        """some directories below the base"""
        rng = self.rng
        for n in rng.sample(NAMES, rng.choice([1, 2, 3, 4, 5])):
            p = os.path.join(self.base, n)
            if os.path.lexists(p):
                continue
            mode = rng.choice(["old", "old", "one", "one", "some"])
            made = []
            self.entry(p, rng.choice(["dir"] * 6 + ["file", "link"]), 1, mode, made)
            new = set()
            if mode == "one":
                new = {rng.choice(made)}
            elif mode == "some":
                new = {x for x in made if rng.random() < 0.3}
            for x in made:  # children before their directory
                self.touch(x, rng.choice(AGES_NEW if x in new else AGES_OLD), now)

    def scan(self):
        """[(path, kind, mtime, identity)] parents first"""
        res = []

        def walk(d):
            with os.scandir(d) as it:
                es = sorted(it, key=lambda e: e.name)
            for e in es:
                st = e.stat(follow_symlinks=False)
                k = "link" if e.is_symlink() else "dir" if e.is_dir(follow_symlinks=False) else "file"
                extra = os.readlink(e.path) if k == "link" else (st.st_size if k == "file" else 0)
                res.append((e.path, k, st.st_mtime_ns, extra))
                if k == "dir" and os.access(e.path, os.R_OK | os.X_OK):
                    walk(e.path)

        walk(self.base)
        return res

    def outside_state(self):
        return sorted((d, sorted(ds), sorted(fs), os.stat(d).st_mtime_ns if d != self.outside else 0)
                      for d, ds, fs in os.walk(self.outside))


def nodes(before, now):
    idx = {p: i + 1 for i, (p, *_) in enumerate(before)}
    return [dict(p=idx.get(os.path.dirname(p), 0), k=k, r=m / 1e9 >= now - LIMIT) for p, k, m, _ in before]


def rounds_case(seed, root, nrounds):
    import aiofiles.os as aos
    import aioshutil
    import backy.daemon as bd
    from backy.daemon import BackyDaemon

    rng = random.Random(seed)
    rounds, shown = [], []

    async def main(loop):
        tree = Tree(root, rng)
        d = BackyDaemon(Path(root) / "none", nolog())
        d.base_dir = tree.base if rng.random() < 0.5 else __import__("pathlib").Path(tree.base)
        d.loop = loop
        d.jobs = {}
        fail = {}

        real = {n: getattr(aos, n) for n in ("stat", "scandir")}
        rm = aioshutil.rmtree

        def broken(name, fn):
            async def f(path, *a, **kw):
                if fail.get("on") == name:
                    fail["n"] -= 1
                    if fail["n"] < 0:
                        fail["on"] = None
                        fail["hit"] = True
                        raise fail["exc"]
                return await fn(path, *a, **kw)

            return f

        for n in real:
            setattr(aos, n, broken(n, real[n]))
        aioshutil.rmtree = broken("rmtree", rm)
        task = None
        try:
            state = dict(n=0)
            done = asyncio.Event()

            def before_round(now):
                if state["n"] and rng.random() < 0.5:  # somebody changes something
                    es = tree.scan()
                    if es and rng.random() < 0.6:
                        tree.touch(rng.choice(es)[0], rng.choice(AGES_NEW), now)
                if rng.random() < 0.8 or not state["n"]:
                    tree.grow(now)
                fail.clear()
                if rng.random() < 0.3:
                    fail.update(on=rng.choice(["stat", "scandir", "rmtree"]), n=rng.choice([0, 0, 1, 2, 5]),
                                exc=rng.choice([FileNotFoundError(2, "gone"), PermissionError(13, "no"), OSError(5, "io"), RuntimeError("x")]))
                state["before"] = tree.scan()
                state["now"] = now
                state["outside"] = tree.outside_state()

            def after_round():
                after = {p: (k, m, x) for p, k, m, x in tree.scan()}
                gone, changed = [], False
                bef = {p for p, *_ in state["before"]}
                deleted_in = {os.path.dirname(p) for p in bef if p not in after}
                for i, (p, k, m, x) in enumerate(state["before"]):
                    if p not in after:
                        gone.append(i + 1)
                    elif after[p] != (k, m, x) and not (k == "dir" and p in deleted_in and fail.get("hit")):
                        changed = True
                changed = changed or bool(set(after) - bef)
                out = tree.outside_state()
                rounds.append(dict(nodes=nodes(state["before"], state["now"]), gone=gone, changed=changed,
                                   failed=bool(fail.get("hit")), outside=out != state["outside"], missing=False))
                shown.append(dict(now=state["now"], tree=[(ascii(p[len(tree.base):]), k, round(state["now"] - m / 1e9, 2)) for p, k, m, _ in state["before"]],
                                  deleted=[ascii(state["before"][i - 1][0][len(tree.base):]) for i in gone],
                                  failure=repr(fail.get("exc")) if fail.get("hit") else ""))
                if out != state["outside"]:
                    tree.make_outside()

            t0 = loop.start.timestamp()
            before_round(t0)
            task = loop.create_task(d.purge_old_files())
            await asyncio.sleep(1)
            after_round()
            for r in range(1, nrounds):
                state["n"] += 1
                # after a day there has been another round
                await asyncio.sleep(r * DAY - 1 - loop.time())
                before_round(t0 + r * DAY)
                await asyncio.sleep(2)
                after_round()
                if task.done():
                    rounds[-1]["missing"] = True
                    break
        finally:
            for n in real:
                setattr(aos, n, real[n])
            aioshutil.rmtree = rm
            if task:
                task.cancel()
        return rounds

    vloop.run(main, patch_time=True)
    return dict(rounds=rounds, shown=shown)


def job(seed, n):
    d = own_dir("purge")
    try:
        return call(rounds_case, seed, str(d), n)
    finally:
        wipe(d)


def run(c):
    c.mc("PurgeMC", "PurgeMC.cfg", workers=8)
    open_scratch()
    preload()
    n = 160 if c.quick else 4000
    jobs = [(c.rng.randrange(1 << 40), c.rng.choice([2, 3, 5])) for _ in range(n)]
    res = pmap(job, jobs, budget=40 if c.quick else 900)
    traces, shown = [], []
    for a, st, r in res:
        if st != "ok":
            raise CheckError(f"{a}: {r}")
        traces.append(r["rounds"])
        shown.append(r["shown"])
    problems, stats = validate("PurgeTrace", traces)
    c.add_traces(stats)
    c.extra["rounds"] = sum(map(len, traces))
    c.extra["directories_deleted"] = sum(len(r["gone"]) for t in traces for r in t)
    c.extra["failed_rounds"] = sum(r["failed"] for t in traces for r in t)
    if shown:
        c.sample(shown[0][0])
    for ti, rec in problems:
        c.violation(rec["k"], dict(seed=jobs[ti], round=rec["i"], case=shown[ti][rec["i"] - 1]))
    c.assumptions += ["modification times as the operating system reports them; nothing changes while a round is running",
                      "time is virtual, sleeps and time.time() follow it"]
