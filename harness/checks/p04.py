"""Two operations at the same time: one is stopped at every point of its
execution while the other runs (optionally stopped in turn)."""
import random
import shutil
import subprocess

from common import SPEC, mkscratch, rmtree
from pool import pmap
from procs import Child, Points, settle
from repocheck import judge
from repohist import Hist, pool_piece
from world import BASE, content, rc_of

CLAUSES = {
    "revision-lost", "removed-revision-back", "change-undone", "not-serializable",
    "chunk-lost", "two-backups", "deadlock", "restored-wrong-bytes", "restore-failed",
    "content-wrong", "foreign-snapshot-touched", "report-lost",
    # what follows
    "referenced-chunk-deleted", "spurious-failure", "intact-revision-lost",
    "other-revisions-changed", "gc-exit-status", "chunk-changed",
}
OPS = ["backup", "gc", "verify", "restore", "rm", "rm2", "distrust", "tags-add", "tags-set",
       "tags-auto", "expire"]
PAIRS = [(a, b) for a in OPS for b in OPS if not (a == "restore" and b == "restore")]


class Op:
    def __init__(self, h, name, who, now, rng, local):
        w = h.w
        self.h, self.who, self.now, self.name = h, who, now, name
        self.target = w.root / f"target-{who}"
        t = int((now - BASE).total_seconds())
        e = dict(op=name, n="", part=False, t=t, rc=0)
        k = rng.randrange(len(local))
        one = local[k]
        two = rng.sample(local, min(2, len(local)))
        if name == "backup":
            # a label of its own while the revision is unknown
            e.update(n="p" + who, tags=["daily"])
            fn = w.cli_fn("backup", "-f", "daily")
        elif name == "gc":
            fn = w.src_fn("gc")
        elif name == "verify":
            # the collection that follows may fail
            e.update(n=h.rid(one), part=True)
            fn = w.src_fn("verify", one)
        elif name == "restore":
            e["n"] = h.rid(one)
            self.uuid = one
            fn = w.cli_fn("restore", "-r", one, "rbd", str(self.target))
        elif name in ("rm", "rm2"):
            us = [one] if name == "rm" else two
            e.update(op="rm", sel=[h.rid(u) for u in us])
            fn = w.cli_fn("rm", "-r", ",".join(us))
        elif name == "distrust":
            e.update(sel=[h.rid(u) for u in two])
            fn = w.cli_fn("distrust", "-r", ",".join(two))
        elif name.startswith("tags"):
            act = {"tags-add": "add", "tags-set": "set", "tags-auto": "remove"}[name]
            tg = ["daily"] if act == "remove" else ["manual:" + who]
            auto = act == "remove"
            us = local if act == "add" else two
            e.update(op="tags", act=act, tags=tg, auto=auto, sel=[h.rid(u) for u in us])
            fn = w.cli_fn("tags", "-f", *(["--autoremove"] if auto else []), act,
                          "-r", ",".join(us), ",".join(tg))
        elif name == "expire":
            e.update(sched={"daily": dict(interval=86400, keep=2), "weekly": dict(interval=7 * 86400, keep=2)},
                     now=t, manual=["manual:a", "manual:b", "manual:x"], part=True)
            fn = w.cli_fn("gc", "--expire", "--local")
        self.fn, self.e = fn, e

    def start(self, points=None):
        w = self.h.w
        w.out, w.err = w.root / f"stdout-{self.who}", w.root / f"stderr-{self.who}"
        self.ch = w.child(self.fn, points=points, now=self.now)
        return self.ch

    def finish(self):
        self.e["rc"] = rc_of(self.ch.finish(60))
        if self.name == "restore":
            try:
                out = content(self.target.read_bytes())
            except OSError:
                out = None
            self.e["exact"] = out == self.h.want.get(self.uuid)
            self.target.unlink(missing_ok=True)


def prepare(path, seed):
    import datetime

    rng = random.Random(seed)
    h = Hist(path, seed=seed)
    h.set_pieces([rng.randrange(1, 3), 3])
    h.w.tick(3600)
    h.backup(("daily", "manual:x") if rng.random() < 0.3 else ("daily",))
    h.set_pieces([rng.randrange(1, 4), 4])
    h.w.tick(86400)
    h.backup(("daily",))
    h.set_pieces([2, 3, 1])
    h.w.tick(86400)
    h.backup(("daily",))
    if rng.random() < 0.5:
        # garbage that the next backup wants to store again
        h.w.tick(86400)
        h.set_pieces([5, 3])
        n = h.backup(("daily",))
        if n:
            h.rm([n])
    local = h.revs(server="", clean=True)
    if rng.random() < 0.5:
        h.distrust(rng.sample(local, rng.randrange(1, len(local) + 1)))
    if rng.random() < 0.3:
        h.verify(rng.choice(local))
    h.set_pieces([5, 2, rng.randrange(1, 5)])
    h.w.tick(rng.choice([3600, 3 * 86400]))
    return h, h.revs(server="", clean=True)


def save(h, to):
    shutil.rmtree(to, ignore_errors=True)
    subprocess.run(["cp", "-a", str(h.w.root), str(to)], check=True)


def load(h, frm):
    rmtree(h.w.root)
    subprocess.run(["cp", "-a", str(frm), str(h.w.root)], check=True)


def snaps_in(log):
    return [l.split("backy-", 1)[1] for l in log if l.startswith("snap create test/img@backy-")]


def run_pair(h, an, bn, seed, i, j, local, want0, follow):
    import datetime

    w = h.w
    rng = random.Random(seed)
    h.prepare_backup(style="object")
    a = Op(h, an, "a", w.now, rng, local)
    b = Op(h, bn, "b", w.now + datetime.timedelta(seconds=7), rng, local)
    img = w.image_sum()
    la, lb = [], []   # rbd commands per operation (by window)
    mark = 0

    def take(dst):
        nonlocal mark
        l = w.log_lines()
        dst.extend(l[mark:])
        n = len(l) - mark
        mark = len(l)
        return n

    pa = Points(w.root, pause_at=[i], reads=True)
    a.start(pa)
    sa = settle(a.ch)
    take(la)
    before = len(snaps_in(la)) > 0
    pb = Points(w.root, pause_at=[j], reads=True) if j else None
    b.start(pb)
    sb = settle(b.ch)
    take(lb)
    inb = len(snaps_in(lb)) > 0
    dead = False
    if sa == "paused":
        a.ch.resume()
    sa = settle(a.ch)
    na = take(la)
    overlap = bool(before and inb and na and bn == "backup" and an == "backup")
    if sb == "paused":
        b.ch.resume()
        sb2 = settle(b.ch)
        nb = take(lb)
        if inb and nb and len(snaps_in(la)) and an == bn == "backup":
            overlap = overlap or sa == "done" and not before
    else:
        sb2 = settle(b.ch)
    sa2 = settle(a.ch) if sa != "done" else sa
    if sb2 != "done":
        sb2 = settle(b.ch, 5)
        if sb2 != "done" and sa2 != "done":
            dead = True
    b.ch.kill() if sb2 != "done" else None
    a.ch.kill() if sa2 != "done" else None
    if sb2 != "done" or sa2 != "done":
        dead = True
    a.finish()
    take(la)
    b.finish()
    take(lb)
    o = w.observe()
    wants = {}
    if an != "backup" or bn != "backup":
        la = lb = la + lb
    for x, l in ((a, la), (b, lb)):
        if x.name == "backup":
            s = snaps_in(l)
            if s:
                u = s[-1]
                x.e["n"] = h.rid(u)
                x.e["part"] = True
                if u in o["revs"]:
                    x.e["t"] = o["revs"][u]["t"]
                h.want[u] = img
                wants[h.rid(u)] = [str(v) for v in img]
    h.step(dict(op="pair", a=a.e, b=b.e, overlap=overlap, dead=dead, rc=0, wants=wants),
           f"{an} stopped at point {i} (of which {a.ch.events[-1][2] if a.ch.events else '-'}), {bn}"
           + (f" stopped at {j}" if j else "") + f"; rc {a.e['rc']} {b.e['rc']} states {sa} {sb}")
    if not follow:
        return
    w.tick(600)
    h.gc()
    for u in h.revs(server="", clean=True):
        h.restore(u)
    if follow > 1:
        h.w.tick(3600)
        h.backup()
        for u in h.revs(server="", clean=True):
            h.restore(u)


def job(an, bn, seed, npts, double):
    d = mkscratch("p")
    out, n = [], 0
    try:
        rng = random.Random(seed * 7 + 1)
        h, local = prepare(d / "w", seed)
        saved = d / "saved"
        save(h, saved)
        st = (h.w.now, dict(h.want), h.raw, h.view(h.raw))
        # how many points are there?
        h.prepare_backup(style="object")
        a = Op(h, an, "a", h.w.now, random.Random(seed), local)
        pts = Points(h.w.root, record=True, reads=True)
        a.start(pts)
        a.ch.finish(60)
        n = pts.count()
        dull = set()
        for e in a.ch.events:
            if e[2].startswith("os.mkdir") and "/chunks/" in e[2]:
                dull |= {e[1], e[1] + 1}
        ks = [k for k in range(1, n + 1) if k not in dull]
        if npts and len(ks) > npts:
            # favour the surroundings of lock operations
            hot = [e[1] + x for e in a.ch.events if e[2].startswith("flock") for x in (-1, 0, 1, 2)]
            hot = [k for k in hot if k in ks]
            pick = set(rng.sample(hot, min(len(hot), npts // 2)))
            rest = [k for k in ks if k not in pick]
            pick |= set(rng.sample(rest, npts - len(pick)))
            ks = sorted(pick)
        for k in ks:
            load(h, saved)
            h.w.now, h.want, h.raw = st[0], dict(st[1]), st[2]
            h.init, h.steps = st[3], []
            h.w.observe()
            j = rng.randrange(1, 60) if double else 0
            run_pair(h, an, bn, seed, k, j, local, None, rng.choice([0, 1, 2]))
            out.append(h.trace())
        return (out, n), None
    except Exception as e:
        import traceback

        return (out, n), f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2000:]
    finally:
        rmtree(d)


CFG = """SPECIFICATION Spec
CONSTANTS
  Procs = {%s}
  Kinds = {"backup", "gc", "verify", "restore", "rm", "distrust", "tags", "expire", "clean"}
  Bugs = {}
  Quiet = %s
INVARIANTS OneBackup DataKept Serial Outcome RestoreFails
"""


def run(c):
    if c.quick:
        c.mc("Conc", CFG % ("1, 2", "FALSE"), workers=8)
    else:
        c.mc("Conc", CFG % ("1, 2, 3", "TRUE"), workers=8, heap="10g", timeout=600)
    jobs = []
    for rnd in range(1 if c.quick else 60):
        ps = list(PAIRS)
        c.rng.shuffle(ps)
        for a, b in ps:
            big = a in ("backup", "verify", "expire")
            n = (4 if big else 3) if c.quick else 12
            jobs.append((a, b, c.rng.randrange(1 << 30), n, c.rng.random() < 0.3))
    res = pmap(job, jobs, budget=150 if c.quick else 420)
    flat, pts = [], {}
    for a, st, r in res:
        if st != "ok":
            flat.append((a, st, r))
            continue
        (out, n), err = r
        pts.setdefault(a[0], set()).add(n)
        flat += [(a, "ok", (t, None)) for t in out]
        if err:
            flat.append((a, "err", err))
    c.log(f"{len(res)} pairs, points: ", {k: max(v) for k, v in pts.items()})
    c.extra["points"] = {k: sorted(v) for k, v in pts.items()}
    judge(c, "RepoTrace", flat, CLAUSES)
