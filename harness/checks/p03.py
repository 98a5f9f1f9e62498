"""Kill every operation at every point; judge what is left and what follows."""
import random
import shutil
import subprocess

from common import NCPU, mkscratch, rmtree, split
from pool import pmap
from procs import Points
from repocheck import judge, mc_fine
from repohist import Hist

CLAUSES = {
    "crash-lost-revision", "crash-changed-mapping", "crash-lost-chunk", "crash-half-done",
    "crash-broken-metadata", "revision-appeared", "foreign-snapshot-touched", "report-lost",
    # what follows
    "spurious-failure", "leftovers-kept", "content-wrong", "wrong-base", "not-incremental",
    "incomplete-revision-kept", "restored-wrong-bytes", "restore-failed", "chunk-lost",
    "intact-revision-lost", "other-revisions-changed", "success-without-revision",
    "referenced-chunk-deleted", "gc-exit-status", "fault-unnoticed",
    "own-snapshot-lost", "verify-store", "verify-outcome",
}
OPS = ["backup", "backup-first", "backup-full", "backup-distrusted", "backup-fail",
       "gc", "verify-ok", "verify-bad", "expire", "tags", "tags-auto", "rm", "distrust"]


def prepare(op, seed, path):
    rng = random.Random(seed)
    h = Hist(path, full=op == "backup-full", seed=seed)
    h.set_pieces([rng.randrange(0, 4) for _ in range(rng.randrange(1, 4))])
    if op == "backup-first":
        h.w.tick(3600)
        return h, lambda: h.w.cli_fn("backup", "-f", "daily"), "backup"
    h.foreign_snap()
    nrev = 5 if op == "expire" else rng.randrange(2, 4)
    for i in range(nrev):
        h.w.tick(90000)
        if i:
            h.mutate_image()
        h.backup(("daily",) if i % 2 or op == "expire" else ("daily", "weekly"))
    if op != "backup-distrusted" and rng.random() < 0.5:
        # an old snapshot is still there
        h.w.tick(60)
        h.env("tick")
    local = h.revs(server="", clean=True)
    h.w.tick(3600)
    if op.startswith("backup"):
        h.mutate_image()
        if op == "backup-distrusted":
            h.distrust(rng.sample(local, rng.randrange(1, len(local) + 1)))
            if rng.random() < 0.4:
                refs = sorted(set(h.w.mapping(local[-1]).values()))
                h.damage(rng.choice(refs), "flip")
        if op == "backup-fail":
            img = bytearray(h.w.image())
            for i in range(0, len(img), 100):
                img[i] ^= 0x33
            h.dev = bytes(img)
        return h, lambda: h.w.cli_fn("backup", "-f", "daily"), "backup"
    if op in ("gc", "verify-ok", "verify-bad"):
        # some garbage
        if len(local) > 1:
            h.rm([local[0]])
            local = local[1:]
    if op == "gc":
        h.set_pending()
        return h, lambda: h.w.src_fn("gc"), "gc"
    if op in ("verify-ok", "verify-bad"):
        u = rng.choice(local)
        h.distrust(local)
        if op == "verify-bad":
            refs = sorted(set(h.w.mapping(u).values()))
            if refs:
                h.damage(rng.choice(refs), rng.choice(["flip", "trunc", "gone"]))
        return h, lambda: h.w.src_fn("verify", u), "verify"
    if op == "expire":
        h.w.tick(6 * 86400)
        return h, lambda: h.w.cli_fn("gc", "--expire", "--local"), "expire"
    sel = ",".join(rng.sample(local, rng.randrange(1, len(local) + 1)))
    if op == "tags":
        return h, lambda: h.w.cli_fn("tags", "-f", "add", "-r", sel, "manual:k"), "tags"
    if op == "tags-auto":
        return h, lambda: h.w.cli_fn("tags", "-f", "--autoremove", "remove", "-r", sel, "daily,weekly"), "tags"
    if op == "rm":
        return h, lambda: h.w.cli_fn("rm", "-r", sel), "rm"
    return h, lambda: h.w.cli_fn("distrust", "-r", sel), "distrust"


def save(h, to):
    shutil.rmtree(to, ignore_errors=True)
    subprocess.run(["cp", "-a", str(h.w.root), str(to)], check=True)


def load(h, frm):
    rmtree(h.w.root)
    subprocess.run(["cp", "-a", str(frm), str(h.w.root)], check=True)


def start(h, op):
    h.prepare_backup(device=getattr(h, "dev", None) if op == "backup-fail" else None,
                     style="object")


def job(op, seed, part, of, limit):
    """Kill `op` at every point k with k % of == part; traces of what follows."""
    d = mkscratch("c")
    out = []
    err = None
    try:
        rng = random.Random(seed + part)
        h, fn, kind = prepare(op, seed, d / "w")
        saved = d / "saved"
        pre_trace = h.trace()
        save(h, saved)
        now0 = h.w.now
        want0 = dict(h.want)
        raw0 = h.raw
        view0 = h.view(raw0)
        # undisturbed
        start(h, op)
        pts = Points(h.w.root, record=True)
        ch = h.w.child(fn(), points=pts)
        ch.finish()
        n = pts.count()
        dull = set()  # creating the 256 chunk directories
        for e in ch.events:
            if e[2].startswith("os.mkdir") and "/chunks/" in e[2]:
                dull |= {e[1], e[1] + 1}
        dull -= set(sorted(dull)[::97])
        ref = h.view(h.w.observe())["revs"]
        ks = [k for k in range(1, n + 1) if k % of == part and (k not in dull or not limit)]
        if limit and len(ks) > limit:
            ks = sorted(rng.sample(ks, limit))
        for k in ks:
            load(h, saved)
            h.w.now = now0
            h.want = dict(want0)
            h.raw = raw0
            h.init, h.steps = view0, []
            h.w.observe()
            start(h, op)
            img = h.w.image_sum()
            grp = rng.random() < 0.75
            p = Points(h.w.root, kill_at=k)
            p.killgroup = grp
            res = h.w.child(fn(), points=p).finish()
            h.w.clear_faults()
            h.w.clear_log()
            o = h.w.observe()
            new = [u for u in o["revs"] if u not in raw0["revs"]]
            for u in new:
                h.want[u] = img
            valid = all(r["server"] != "?" and r["file"] for r in o["revs"].values())
            h.step(dict(op="crash", of=kind, n=h.rid(new[0]) if new else "-",
                        ref=ref, valid=valid, img=[str(x) for x in img], rc=0),
                   f"{op} killed at point {k} of {n} group={grp}")
            # what follows
            h.w.tick(3600)
            if rng.random() < 0.3:
                h.gc()
            x = rng.random()
            if x < 0.4:
                h.mutate_image()
            h.backup()
            for u in h.revs(server="", clean=True):
                h.restore(u)
            if rng.random() < 0.5:
                h.gc()
                for u in h.revs(server="", clean=True):
                    h.restore(u)
            out.append(h.trace())
        return (out, n, pre_trace), None
    except Exception as e:
        import traceback

        return (out, 0, None), f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2000:]
    finally:
        rmtree(d)


def run(c):
    mc_fine(c, **({"MaxOps": 4} if c.quick else {}))
    jobs = []
    if c.quick:
        for op in OPS:
            s = c.rng.randrange(1 << 30)
            m = 3 if op.startswith("backup") else 1
            for p in range(m):
                jobs.append((op, s, p, m, 9 if m > 1 else 12))
    else:
        for _ in range(40):
            for op in OPS:
                s = c.rng.randrange(1 << 30)
                m = 4 if op.startswith("backup") else 1
                for p in range(m):
                    jobs.append((op, s, p, m, 0))
    res = pmap(job, jobs, budget=180 if c.quick else 560)
    flat = []
    pts = {}
    for a, st, r in res:
        if st != "ok":
            flat.append((a, st, r))
            continue
        (out, n, pre), err = r
        pts.setdefault(a[0], set()).add(n)
        for t in out:
            flat.append((a, "ok", (t, None)))
        if err:
            flat.append((a, "err", err))
        elif pre:
            flat.append((a, "ok", (pre, None)))
    c.log("points per operation:", {k: sorted(v) for k, v in pts.items()})
    c.extra["kill_points"] = {k: sorted(v) for k, v in pts.items()}
    judge(c, "RepoTrace", flat, CLAUSES)
