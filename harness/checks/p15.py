"""Revision metadata, configurations and reports written and read by the real
code, also while the writer is paused, killed or failing; judged by Meta.tla."""
import datetime
import json
import os
import random
import traceback

import yaml

from common import CheckError, mkscratch, rmtree, validate
from pool import pmap
from procs import Child, Points
from revs import UTC, make_repo, read_rev, revdict, write_rev
from world import nolog, set_now

T0 = datetime.datetime(2030, 1, 1, tzinfo=UTC)
SCHED = {"daily": {"interval": "1d", "keep": 2}, "ü b": {"interval": "1h", "keep": 3}}
WORDS = ["daily", "ü b", "manual:x", "", "yes", "null", "~", "2020-01-01", "1e3", "0x1F", "0o7", "12", "1_000", "1:30",
         "- a", "a: b", "#c", "'", '"', "\\", "a\nb", "\n", " lead", "trail ", "\ttab", "\x85", "\u2028", "\u00e9\u0301",
         "😀", "\x00", "\x1b[0m", "!!python/object:os.system", "&a", "*a", "{a: b}", "[x]", "|", ">", "%", "@", "`", "=",
         "<<", "?", "...", "---", "true", "Off", "nan", ".inf", "x" * 300, "a b " * 60, "\ufeffbom", "\r", "\r\n", "日本語",
         "\x7f", "\ud7ff", "\ue000", "\U0010ffff", "manual:\u00a0", "a,b", ",", "uuid", "tags: [x]"]
IDS = ["1e5", "0123456789", "abcDEF", "n", "null", "true", "12", "0x10", "2020-01-01", "a-b_c", "~x", "é", "1.5", "x.y", "-"]


def text(rng):
    if rng.random() < 0.7:
        return rng.choice(WORDS)
    n = rng.choice([1, 2, 5, 20])
    return "".join(chr(rng.choice([rng.randrange(0x20, 0x7f), rng.randrange(0xa0, 0x2100), rng.randrange(1, 0x20),
                                   rng.randrange(0x1f300, 0x1f600)])) for _ in range(n))


def stats(rng):
    st = {"bytes_written": rng.choice([0, 1, 4096, 2 ** 40, 2 ** 70])}
    if rng.random() < 0.7:
        st["duration"] = rng.choice([0, 1, 0.1, 1e-7, 1 / 3, 1e22, 12345.678901234567, rng.random() * 10 ** rng.randrange(-9, 9)])
    if rng.random() < 0.2:
        st[text(rng)] = rng.choice([text(rng), None, True, [1, "1"], {"a": 1.5}])
    return st


def when(rng):
    us = rng.choice([0, 1, 10, 100000, 999999, rng.randrange(10 ** 6)])
    return T0 + datetime.timedelta(seconds=rng.choice([0, 1, 2, 59, 3600, 86400, -10 ** 9, rng.randrange(2 * 10 ** 9)]), microseconds=us)


J = lambda x: json.dumps(x, sort_keys=True)


def canon(d):
    """metadata -> tokens"""
    ts = d["timestamp"]
    return dict(id=J(d["uuid"]), time=J(int((ts - T0) // datetime.timedelta(microseconds=1))),
                tags=sorted(map(J, d["tags"])), orig=sorted(map(J, d["orig_tags"])), stats=J(d["stats"]),
                trust=J(d["trust"]), server=J(d["server"]))


def of_obj(r):
    return dict(uuid=r.uuid, timestamp=r.timestamp, tags=r.tags, orig_tags=r.orig_tags, stats=r.stats,
                trust=r.trust.value, server=r.server)


def repository(d):
    from backy.repository import Repository
    from backy.schedule import Schedule

    s = Schedule()
    s.configure(SCHED)
    r = Repository(d, s, nolog())
    r.connect()
    return r


def history_case(rng):
    set_now(T0 + datetime.timedelta(days=99))
    from backy.revision import Revision, Trust

    d = make_repo(mkscratch("meta") / "r1", SCHED)
    try:
        repo = repository(d)
        revs, times, gone = [], {}, []
        ids = set()
        for k in range(rng.choice([1, 1, 2, 3, 5])):
            u = rng.choice(IDS) if rng.random() < 0.3 else None
            if u in ids:
                u = None
            ts = rng.choice(list(times.values())) if times and rng.random() < 0.1 else when(rng)
            r = Revision(repo, nolog(), uuid=u, timestamp=ts)
            ids.add(r.uuid)
            times[r.uuid] = ts
            r.tags = {text(rng) for _ in range(rng.choice([0, 1, 2, 4]))}
            r.server = text(rng) if rng.random() < 0.5 else ""
            r.orig_tags = {text(rng) for _ in range(rng.choice([0, 1, 2]))} if r.server else set()
            if rng.random() < 0.2:
                r.orig_tags |= r.tags
            r.stats = stats(rng)
            r.trust = rng.choice(list(Trust)) if not r.server else Trust.TRUSTED
            revs.append(dict(m=canon(of_obj(r)), ops=[]))
            if rng.random() < 0.5:
                r.materialize()
            else:
                r.write_info()
        names = [json.loads(x["m"]["id"]) for x in revs]
        for _ in range(rng.choice([0, 1, 2, 4])):
            k = rng.randrange(len(revs))
            u, ops = names[k], revs[k]["ops"]
            if revs[k]["m"]["id"] in gone:
                continue
            repo = repository(d)
            r = next((x for x in repo.history if x.uuid == u), None)
            if r is None:
                break
            what = rng.random()
            new = {text(rng) for _ in range(rng.choice([0, 1, 2]))} | ({rng.choice(sorted(r.tags))} if r.tags and rng.random() < 0.4 else set())
            if what < 0.6:
                op = rng.choice(["set", "add", "remove"])
                if u in IDS:
                    r.tags = new if op == "set" else r.tags | new if op == "add" else r.tags - new
                    r.write_info()
                elif not repo.tags(op, u, new, force=True):
                    break
                ops.append(dict(op=op, tags=sorted(map(J, new))))
            elif what < 0.75 and not r.server:
                repo.distrust([r])
                ops.append(dict(op="trust", trust=J("distrusted")))
            elif what < 0.85:
                r.write_info()
                ops.append(dict(op="rewrite"))
            elif what < 0.95 and not r.server:
                repo.rm([r])
                gone.append(revs[k]["m"]["id"])
            else:
                os.symlink(f"{u}.rev", d / f"last{len(os.listdir(d))}-{rng.randrange(10 ** 9)}.rev")
        for junk in rng.sample(["tmpx1", "a.rev.bak", "last.rev~", "b.chunks", ".hidden"], 2):
            (d / junk).write_text("{")
        if rng.random() < 0.3:
            os.symlink("nowhere", d / "dangling.rev")
        rank = {t: n for n, t in enumerate(sorted(set(times.values())))}
        err, readers = "", {}
        try:
            readers["backy"] = [dict(id=J(r.uuid), rank=rank.get(r.timestamp, -1), m=canon(of_obj(r)))
                                for r in repository(d).history]
            raw = sorted((read_rev(p) for p in d.iterdir() if p.suffix == ".rev" and not p.is_symlink()),
                         key=lambda m: m["timestamp"])
            readers["raw"] = [dict(id=J(m["uuid"]), rank=rank.get(m["timestamp"], -1), m=canon(m)) for m in raw]
        except Exception as e:
            err = f"{type(e).__name__}: {e}"
        return dict(kind="history", revs=revs, gone=gone, readers=readers, err=err)
    finally:
        rmtree(d.parent)


# ---- replacement -----------------------------------------------------------
def token(p):
    try:
        b = p.read_bytes()
    except FileNotFoundError:
        return "absent"
    return of_bytes(p, b)


def of_bytes(p, b):
    if p.parent.name == "chunks":
        return b.hex()[:40] + str(len(b)) + str(hash(b))
    try:
        v = yaml.load(b.decode(), Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))
        if isinstance(v, dict):
            for k in ("tags", "orig_tags"):
                if isinstance(v.get(k), list):
                    v[k] = sorted(map(str, v[k]))
        return json.dumps(v, sort_keys=True, default=str)
    except Exception as e:
        return f"unparsable {len(b)}: {e}"


def scene(kind, seed, d):
    """(files observed, the writer) for a fresh directory"""
    rng = random.Random(seed)
    d = make_repo(d / "r1", SCHED)
    (d / "quarantine").mkdir()
    many = ["manual:" + "é%d" % k for k in range(rng.choice([1, 3, 40]))]
    ids = ["revA", "revB"]
    for k, u in enumerate(ids):
        write_rev(d, revdict(u, T0 + datetime.timedelta(hours=k), tags=rng.choice([many, ["daily"]]), trust="trusted"))
    files = [d / (u + ".rev") for u in ids]
    extra = {"ü": "a" * rng.choice([1, 5000, 20000])}
    if kind == "rev":
        def fn():
            r = repository(d)._by_uuid["revA"] if hasattr(repository(d), "_by_uuid") else [
                x for x in repository(d).history if x.uuid == "revA"][0]
            r.tags = {"daily", "manual:new"}
            r.stats = dict(r.stats, **extra)
            r.write_info()
    elif kind == "newrev":
        files.append(d / "revC.rev")

        def fn():
            from backy.revision import Revision

            r = Revision(repository(d), nolog(), uuid="revC", timestamp=T0)
            r.tags = set(many)
            r.stats = dict(r.stats, **extra)
            r.materialize()
    elif kind == "tags":
        def fn():
            r = repository(d)
            r.tags("add", "all", {"manual:zz"}, force=True)
    elif kind == "distrust":
        def fn():
            r = repository(d)
            r.distrust(r.history)
    elif kind == "expire":
        def fn():
            r = repository(d)
            r.expire()
    elif kind == "config":
        old = rng.random() < 0.8
        files = [d / "config"]
        if not old:
            files[0].unlink()
        sched = {"t%d" % k: {"interval": "%dd" % (k + 1), "keep": k + 1} for k in range(rng.choice([1, 5, 300]))}

        def fn():
            from backy.repository import Repository
            from backy.schedule import Schedule
            from backy.source import CmdLineSource

            s = Schedule()
            s.configure(sched)
            src = CmdLineSource(Repository(d, s, nolog()), {"type": "file", "filename": "/x" * rng.choice([1, 4000])}, nolog())
            src.store()
    elif kind == "report":
        from backy.report import ChunkMismatchReport

        rep = ChunkMismatchReport(bytes(rng.randrange(256) for _ in range(rng.choice([10, 9000]))),
                                  bytes(rng.randrange(256) for _ in range(rng.choice([10, 9000]))), 4096)
        rep.uuid, rep.timestamp, rep.traceback = "rep1", T0, "line\n" * rng.choice([1, 50, 4000])
        files = [d / "quarantine" / f"{rep.uuid}.report"]
        files += [d / "quarantine" / "chunks" / h for h in (rep.source_hash, rep.target_hash)]

        def fn():
            repository(d).add_report(rep)
    return d, files, fn


KINDS = ["rev", "newrev", "tags", "distrust", "expire", "config", "report"]


def named(files, d, toks, old, new):
    res = {}
    for f, seen in toks.items():
        o, n = old[f], new[f]
        res[str(f.relative_to(d))] = ["new" if x == n and o != n else "old" if x == o else
                                      f"other: {x[:200]}" for x in seen]
    return {f: s for f, s in res.items()}


def replace_job(kind, seed, kills):
    out = []
    top = mkscratch("rep")
    set_now(T0 + datetime.timedelta(days=9))
    try:
        rng = random.Random(seed)
        # a complete run, seen by a reader all the time
        d, files, fn = scene(kind, seed, top / "w0")
        old = {f: token(f) for f in files}
        new = {}
        toks = {f: [] for f in files}
        ch = Child(fn, points=Points(d, pause_at=["all"], every_line=True))
        pauses, slow = 0, {}
        while True:
            s = ch.wait(60)
            if s != "paused":
                break
            pauses += 1
            for f in files:
                x = token(f)
                if not toks[f] or toks[f][-1] != x:
                    toks[f].append(x)
                if f.exists() and rng.random() < 0.02 and (f, pauses) not in slow:
                    h = open(f, "rb")
                    slow[f, pauses] = (h, h.read(rng.randrange(1, 200)))
            ch.resume()
        res = ch.finish()
        end = "ok" if res[0] == "ok" else "failed"
        if end != "ok":
            out.append(dict(kind="replace", end="ok", seen={kind: ["failed: " + str(res)[:300]]}))
            return out
        new = {f: token(f) for f in files}
        for f in files:
            toks[f].append(new[f])
        seen = named(files, d, toks, old, new)
        for (f, n), (h, part) in slow.items():
            with h:
                seen[f"slow reader {n} {f.name}"] = named(files, d, {f: [of_bytes(f, part + h.read())]}, old, new)[
                    str(f.relative_to(d))]
                if seen[f"slow reader {n} {f.name}"] == ["old"]:
                    del seen[f"slow reader {n} {f.name}"]
        seen = {f: s for f, s in seen.items() if not (old.get(d / f) == new.get(d / f) and s[-1] == "old" and len(set(s)) == 1)}
        # slow readers are no observation of the final state
        out.append(dict(kind="replace", end="ok", seen={f: s for f, s in seen.items() if not f.startswith("slow")},
                        what=kind, how="watched", pauses=pauses))
        sl = {f: s for f, s in seen.items() if f.startswith("slow")}
        if sl:
            out.append(dict(kind="replace", end="running", seen=sl, what=kind, how="slow"))
        base = d
        relnew = {f.relative_to(base): t for f, t in new.items()}
        relold = {f.relative_to(base): t for f, t in old.items()}
        path = lambda t, a, b: t.replace(str(a), str(b))
        ks = range(1, pauses + 1) if kills is None else sorted(rng.sample(range(1, pauses + 1), min(kills, pauses)))
        for k in ks:
            for how in ("killed", "failed"):
                d, files, fn = scene(kind, seed, top / f"{how}{k}")
                ch = Child(fn, points=Points(d, kill_at=k if how == "killed" else None,
                                             fail_at=k if how == "failed" else None, every_line=True))
                res = ch.finish()
                o = {f: path(relold[f.relative_to(d)], base, d) for f in files}
                n = {f: path(relnew[f.relative_to(d)], base, d) for f in files}
                end = "ok" if res[0] == "ok" else how
                seen = named(files, d, {f: [token(f)] for f in files}, o, n)
                if end == "ok":
                    end = "running"  # the fault was absorbed
                if kind == "report" and str(files[0].relative_to(d)) in seen and seen[str(files[0].relative_to(d))] == ["new"]:
                    # a listed report has its pieces
                    for f in files[1:]:
                        if seen[str(f.relative_to(d))] != ["new"]:
                            seen[str(f.relative_to(d))] = ["missing piece of a listed report"]
                out.append(dict(kind="replace", end=end, seen=seen, what=kind, how=how, at=k))
                rmtree(d.parent)
    finally:
        rmtree(top)
    return out


def hist_job(seed, n):
    rng = random.Random(seed)
    out = []
    for _ in range(n):
        try:
            out.append(history_case(rng))
        except Exception as e:
            if not in_backy(e):
                raise
            out.append(dict(kind="history", revs=[], gone=[], readers={}, err=f"{type(e).__name__}: {e}"))
    return out


def in_backy(e):
    """raised in the code under test?"""
    return any("/src/backy/" in f.filename for f in traceback.extract_tb(e.__traceback__))


def work(kind, *a):
    return hist_job(*a) if kind == "history" else replace_job(kind, *a)


def run(c):
    q = c.quick
    c.mc("MetaMC", "MetaMC.cfg" if q else """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Writers = {1, 2, 3, 4}
  Blocks = 3
  Strategy = "rename"
INVARIANTS Complete Visible Versions
""", workers=8, timeout=800, heap="10g")
    rng = c.rng
    jobs = []
    for k in range(3 if q else 30):
        for kind in KINDS:
            jobs.append((kind, rng.randrange(1 << 40), (30 if k < 2 else 12) if q else None if k < 6 else 60))
    for _ in range(60 if q else 1500):
        jobs.append(("history", rng.randrange(1 << 40), 15))
    traces = []
    for a, st, out in pmap(work, jobs, budget=45 if q else 500):
        if st != "ok":
            raise CheckError(out)
        traces.append(dict(cases=out))
    n = sum(len(t["cases"]) for t in traces)
    nh = sum(x["kind"] == "history" for t in traces for x in t["cases"])
    c.log(f"{nh} histories written and read, {n - nh} replacements observed")
    probs, stats = validate("MetaTrace", traces, min_batch=4)
    stats["traces"] = n
    c.add_traces(stats)
    for i, rec in probs:
        c.violation(rec["k"], traces[i]["cases"][rec["i"] - 1])
    c.extra.update(histories=nh, replacements=n - nh)
    c.sample(traces[0]["cases"][:2])
