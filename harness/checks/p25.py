"""File backups through their life cycle: histories of the real commands (alone,
overlapping, killed, failing) on real repositories, judged by FileRepo.tla."""
import os
import random
import shutil
import tempfile

from common import CheckError, scratch_root, validate
from pool import pmap
from procs import Points, settle
from world import BASE, World, digest, preload, rc_of

SCHED = {"daily": {"interval": "1d", "keep": 2}, "weekly": {"interval": "7d", "keep": 1}}
SECS = {"daily": [86400, 2], "weekly": [7 * 86400, 1]}


class Hist:
    def __init__(self, path, seed):
        self.rng = random.Random(seed)
        self.w = World(path, kind="file", schedule=SCHED)
        self.names, self.ids = {}, {"none": 0}
        self.want = {}
        self.steps, self.shown = [], []
        self.srcreal = self.w.srcfile
        if self.rng.random() < 0.15:
            self.srcreal = self.w.root / "real.bin"
            self.w.srcfile.symlink_to(self.srcreal)
        self.write_src()

    def rid(self, u):
        return self.names.setdefault(u, f"r{len(self.names) + 1}")

    def cid(self, b):
        k = digest(b)
        return self.ids.setdefault(k, f"c{len(self.ids)}")

    def write_src(self):
        rng = self.rng
        old = self.srcreal.read_bytes() if self.srcreal.exists() else b""
        k = rng.randrange(7)
        if k == 0:
            b = b""
        elif k == 1:
            b = old[:len(old) // 2]
        elif k == 2:
            b = old + rng.randbytes(rng.choice([1, 512, 5000]))
        elif k == 3:
            b = rng.randbytes(rng.choice([1, 4096, 70000, 1 << 20]))
        elif k == 4 and old:
            i = rng.randrange(len(old))
            b = old[:i] + bytes([old[i] ^ 1]) + old[i + 1:]
        elif k == 5:
            b = bytes(rng.choice([4096, 300000]))
        else:
            b = b"text %d\n" % rng.randrange(1000)
        if os.path.lexists(self.srcreal):
            if rng.random() < 0.5:
                self.srcreal.unlink()
            else:
                os.chmod(self.srcreal, 0o600)
        self.srcreal.write_bytes(b)
        if rng.random() < 0.4:   # a changed file need not look like one
            os.utime(self.srcreal, (10 ** 9, 10 ** 9))
        os.chmod(self.srcreal, rng.choice([0o600, 0o644, 0o400, 0o444]))

    def state(self):
        res = {}
        for f in self.w.rev_files():
            try:
                m = self.w.load_rev(f)
                u = m["uuid"]
                ts = m["timestamp"]
                try:
                    data = self.cid((self.w.repo / u).read_bytes())
                except OSError:
                    data = "none"
                res[self.rid(u)] = dict(
                    t=int((ts - BASE).total_seconds()), tags=sorted(map(str, m.get("tags", []))), server=m.get("server", ""),
                    clean="duration" in m.get("stats", {}), trust=m.get("trust", "trusted"), data=data)
            except Exception as e:
                res[self.rid(f.name)] = dict(t=0, tags=[], server="?", clean=False, trust="?", data="broken " + type(e).__name__)
        return res

    def pick(self, st, n=None):
        """revisions to name on the command line"""
        us = [u for u, r in self.names.items() if r in st]
        if not us:
            return None
        return self.rng.choice(us)

    def op(self, st, kind=None):
        """-> (record, argv)"""
        rng = self.rng
        kind = kind or rng.choice(["backup"] * 5 + ["restore", "restore", "verify", "rm", "tags", "tags", "expire", "gc", "gc", "distrust"])
        r = dict(op=kind, rc=0, sel=[], tags=[], act="", auto=False, src="", got="", dead=False, srcchanged=False)
        if kind == "backup":
            return r, ["backup", "-f", rng.choice(["daily", "weekly", "daily,weekly", "manual:x", "manual:x,daily"])]
        if kind == "gc":
            return r, ["gc"]
        if kind == "expire":
            return r, ["gc", "--expire", "--local"]
        u = self.pick(st)
        if u is None:
            r["op"] = "backup"
            return r, ["backup", "-f", "daily"]
        r["sel"] = [self.names[u]]
        spec = u
        if kind != "restore" and rng.random() < 0.2:
            spec = "all"
            r["sel"] = sorted(st)
        if kind == "tags":
            r["act"] = rng.choice(["set", "add", "remove"])
            r["auto"] = rng.random() < 0.3
            r["tags"] = [rng.choice(["daily", "weekly", "manual:x", "manual:y"])]
            return r, ["tags", r["act"]] + (["--autoremove"] if r["auto"] else []) + ["-r", spec, "-f", r["tags"][0]]
        if kind == "restore":
            self.target = self.w.root / "restored"
            if rng.random() < 0.5:
                self.target.unlink(missing_ok=True)
            elif not self.target.exists():
                self.target.write_bytes(b"old" * rng.choice([1, 100000]))
            return r, ["restore", "-r", spec, "file", str(self.target)]
        return r, [kind, "-r", spec]

    def finish(self, r, child_res):
        r["rc"] = rc_of(child_res)
        r["dead"] = r["dead"] or child_res[0] in ("killed", "timeout")
        if r["op"] == "restore":
            r["got"] = self.cid(self.target.read_bytes()) if self.target.exists() else "none"

    def step(self):
        rng, w = self.rng, self.w
        if rng.random() < 0.5:
            self.write_src()
        before = self.state()
        n_ops = rng.choice([1, 1, 1, 2, 2, 3])
        ops, argvs = [], []
        combo = None
        if n_ops > 1 and rng.random() < 0.4:
            combo = rng.choice([["backup", "gc", "backup"], ["gc", "backup"], ["backup", "gc"], ["backup", "backup"],
                                ["gc", "rm"], ["backup", "gc", "backup"], ["tags", "backup"], ["expire", "backup"], ["gc", "backup", "rm"]])
            n_ops = len(combo)
        for i in range(n_ops):
            r, a = self.op(before, combo[i] if combo else None)
            if r["op"] == "restore" and any(o["op"] == "restore" for o in ops):
                r, a = dict(r, op="gc", sel=[]), ["gc"]
            ops.append(r)
            argvs.append(a)
        src = self.srcreal.read_bytes()
        for r in ops:
            r["src"] = self.cid(src)
        how = ""
        if n_ops == 1 and rng.random() < 0.4:
            k = rng.choice(["kill", "kill", "fail"])
            mode = rng.choice(["line", "effect"])
            n = rng.randrange(1, (34 if ops[0]["op"] == "backup" else 10) if mode == "effect" else 2500)
            how = f"{k} at {mode} {n}"
            pts = Points(w.root, every_line=mode == "line", **({"kill_at": n} if k == "kill" else {"fail_at": n}))
            res = w.call(w.cli_fn(*argvs[0]), points=pts)
            if k == "fail" and pts.count() >= n:
                ops[0]["dead"] = True
            self.finish(ops[0], res)
        elif n_ops == 1:
            missing = ops[0]["op"] == "backup" and rng.random() < 0.1
            if missing:
                # the file is not there
                self.srcreal.rename(w.root / "away")
                if rng.random() < 0.5:
                    self.srcreal.mkdir()
                ops[0]["src"] = "absent"
                ops[0]["dead"] = True
                how = "file missing"
            self.finish(ops[0], w.call(w.cli_fn(*argvs[0])))
            if missing:
                if self.srcreal.is_dir():
                    self.srcreal.rmdir()
                (w.root / "away").rename(self.srcreal)
        else:
            # the first is paused somewhere, the others run, it goes on
            kids, states, results, script = [], [], {}, []
            if combo == ["backup", "gc", "backup"] and rng.random() < 0.6:
                # the order of TLC's counterexample for missing locks
                script = [2] * 9 + [1] * rng.choice([1, 1, 2, 3]) + [0] * 9 + [1] * 20
                (w.repo / ".purge_pending").touch()
            for i, (r, a) in enumerate(zip(ops, argvs)):
                pts = None
                if script:
                    if i == 0:
                        pts = Points(w.root, pause_at=[rng.choice([16, 17, 18, 19, 21])])
                    elif i == 1:
                        k = rng.randrange(1, 9)
                        pts = Points(w.root, pause_after=(1, (k, k + 6, k + 15, k + 30, k + 45, k + 60, k + 80)))
                    how = "as in the model's counterexample"
                elif i < n_ops - 1 or rng.random() < 0.5:
                    mode = rng.choice(["effect", "after", "after", "read", "line"])
                    most = {"effect": 34 if r["op"] == "backup" else 10, "read": 4 * len(before) + 12, "line": 2500,
                            "after": 17 if r["op"] == "backup" else 6}[mode]
                    n = rng.randrange(1, most)
                    more = sorted({n} | {n + rng.choice([1, 2, 3, 5, 8, 13, 40]) for _ in range(rng.choice([0, 1, 3, 6]))})
                    ks = sorted(rng.sample([1, 2, 3, 4, 6, 9, 12, 16, 20, 25, 30, 40, 50, 60, 80, 100, 130], rng.choice([1, 2, 5, 9])))
                    how += f"{i}: {mode} {more if mode != 'after' else (n, ks)} "
                    pts = Points(w.root, pause_after=(n, ks)) if mode == "after" else \
                        Points(w.root, pause_at=more, every_line=mode == "line", reads=mode == "read")
                ch = w.child(w.cli_fn(*a), points=pts)
                states.append(settle(ch))
                kids.append(ch)
                w.tick(1)
            # one after the other, in any order, from pause to pause
            greedy = rng.random()
            cur = rng.randrange(n_ops)
            for _ in range(400):
                left = [i for i in range(n_ops) if i not in results]
                if not left:
                    break
                if script:
                    cur = script.pop(0)
                    if cur in results:
                        continue
                elif cur not in left or rng.random() < greedy or states[cur] == "blocked":
                    cur = rng.choice(left)
                if states[cur] == "paused":
                    kids[cur].resume()
                if states[cur] != "done":
                    states[cur] = settle(kids[cur])
                if states[cur] == "done":
                    results[cur] = kids[cur].finish()
            for i in range(n_ops):
                if i not in results:
                    results[i] = kids[i].finish()
            for i in range(n_ops):
                self.finish(ops[i], results[i])
        after = self.state()
        changed = self.srcreal.read_bytes() != src
        if changed:
            ops[0]["srcchanged"] = True
        want = {u: self.want.get(u, "") for u in before}
        tags = {t for r in list(before.values()) + list(after.values()) for t in r["tags"]}
        now = int((w.now - BASE).total_seconds())
        self.steps.append(dict(before=before, after=after, want=want, ops=ops, sched=SECS, now=now,
                               manual=[t for t in sorted(tags) if t.startswith("manual:")]))
        self.shown.append(dict(commands=argvs, how=how))
        for u, r in after.items():
            if r["clean"] and not self.want.get(u):
                # what it has to be from now on
                self.want[u] = r["data"]
        w.tick(rng.choice([60, 3600, 86400, 86400, 3 * 86400]))


def job(seed, n):
    d = tempfile.mkdtemp(prefix="p25-", dir=scratch_root())
    try:
        h = Hist(d + "/w", seed)
        for _ in range(n):
            h.step()
        return dict(steps=h.steps, shown=h.shown)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(c):
    c.mc("FileRepoMC", "FileRepoMC.cfg", workers=8)
    preload()
    n = 180 if c.quick else 4000
    jobs = [(c.rng.randrange(1 << 40), c.rng.choice([8, 14])) for _ in range(n)]
    res = pmap(job, jobs, budget=50 if c.quick else 850)
    traces, shown, args = [], [], []
    for a, st, r in res:
        if st != "ok":
            raise CheckError(f"{a}: {r}")
        traces.append(r["steps"])
        shown.append(r["shown"])
        args.append(a)
    problems, stats = validate("FileRepoTrace", traces)
    c.add_traces(stats)
    sts = [s for t in traces for s in t]
    c.extra["steps"] = len(sts)
    c.extra["commands"] = sum(len(s["ops"]) for s in sts)
    c.extra["overlapping"] = sum(len(s["ops"]) > 1 for s in sts)
    c.extra["killed_or_failed"] = sum(o["dead"] for s in sts for o in s["ops"])
    if shown:
        c.sample(shown[0])
    for ti, rec in problems:
        k = rec["i"] - 1
        c.violation(rec["k"], dict(seed=args[ti], step=k + 1, case=shown[ti][k], state=traces[ti][k]))
    c.assumptions += ["the file does not change while a backup is reading it"]
