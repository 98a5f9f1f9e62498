"""Tag edits, removals and distrust by the real code, judged by Tags.tla."""
import asyncio
import contextlib
import datetime
import fcntl
import io
import json
import random

from checks.p13 import sample, text_of, vocab
from common import CheckError, mkscratch, rmtree, validate
from pool import pmap
from revs import UTC, make_repo, read_revs, revdict, write_rev
from world import World, nolog

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Bug = "none"
INVARIANTS Exact OneAtATime
PROPERTIES Refusal
"""
T0 = datetime.datetime(2030, 3, 30, 12, 0, 0, tzinfo=UTC)
SCHEDULE = {g: {"interval": "1d", "keep": 2} for g in ("daily", "weekly", "a b", "ü")}
TAGS = list(SCHEDULE) + ["manual:x", "manual:", "old", "manualish", "all"]
MANUAL = ["manual:x", "manual:"]


def history(rng):
    res, t = [], 0
    for i in range(rng.choice([0, 1, 2, 2, 3, 4, 6])):
        t += rng.choice([1, 3600, 86400])
        srv = rng.choice(["", "", "", "srv2"])
        w = rng.choice([0.1, 0.3, 0.6])
        tg = [x for x in TAGS if rng.random() < w]
        res.append((revdict(f"R{i}x{rng.randrange(36**4)}", T0 + datetime.timedelta(seconds=t), tags=tg,
                            orig=rng.choice([tg, ["daily"]]) if srv else [], server=srv,
                            trust="trusted" if srv else rng.choice(["trusted", "distrusted", "verified"]),
                            duration=rng.choice([1.0, 1.0, None])), t))
    return res


def mutate(rng, h):
    """another state of the same repository"""
    res = []
    for r, t in h:
        k = rng.random()
        if k < 0.2:
            continue
        if k < 0.5:
            r = dict(r, tags=[x for x in TAGS if rng.random() < 0.3])
        elif k < 0.6 and not r["server"]:
            r = dict(r, trust="distrusted")
        res.append((r, t))
    if rng.random() < 0.3:
        t = max([t for _, t in res], default=0) + 5
        res.append((revdict("NEWx1", T0 + datetime.timedelta(seconds=t), tags=["daily"], server=""), t))
    return res


def put(repo, h):
    for f in repo.glob("*.rev"):
        f.unlink()
    for r, _ in h:
        write_rev(repo, r)


def view(repo):
    res = []
    for m in read_revs(repo).values():
        rest = {k: v for k, v in m.items() if k not in ("tags", "trust", "parent", "server", "uuid")}
        rest["orig_tags"] = sorted(rest.get("orig_tags", []))
        res.append(dict(u=m["uuid"], t=int((m["timestamp"] - T0).total_seconds()), tags=sorted(m["tags"]),
                        trust=m["trust"], server=m.get("server", ""), clean="duration" in m["stats"],
                        rest=json.dumps(rest, sort_keys=True, default=str)))
    return sorted(res, key=lambda x: x["t"])


def command(repo, name, kw):
    from backy.cli import Command

    with contextlib.redirect_stdout(io.StringIO()):
        return asyncio.run(Command(repo, repo / "no.conf", False, None, nolog())(name, kw)) == 0


def opened(repo):
    from backy.repository import Repository
    from backy.schedule import Schedule

    s = Schedule()
    s.configure(SCHEDULE)
    rp = Repository(repo, s, nolog())
    rp.connect()
    return rp


def one(rng, d, w):
    repo = w.repo
    h = history(rng)
    how = rng.choice(["cmd", "cmd", "cmd", "api", "api", "cli"] if rng.random() < 0.3 else ["cmd", "cmd", "api", "api"])
    old = h
    if how == "api":
        put(repo, h)
        rp = opened(repo)
        if rng.random() < 0.8:
            h = mutate(rng, h)
    put(repo, h)
    kind = rng.choice(["tags", "tags", "tags", "tags", "rm", "distrust"])
    basis = h if kind == "tags" or how != "api" else old
    while True:
        v = vocab(rng, basis, "UTC", True)
        if rng.random() < 0.4:
            ids = [k for k, (t, _) in enumerate(v) if t["k"] == "id" or (t["k"] == "word" and t["v"] in ("all", "local"))]
            toks = [rng.choice(ids)]
        else:
            toks = sample(rng, v)
        text = text_of(v, toks, rng, False)
        if text and not text.startswith("-"):
            break
    op = dict(action=rng.choice(["set", "add", "remove"]), tags=rng.sample(TAGS, rng.choice([1, 1, 2, 3])),
              hasExpect=rng.random() < 0.45, expect=[], autoremove=rng.random() < 0.5, force=rng.random() < 0.4)
    if rng.random() < 0.3:
        op["tags"] = [x for x in op["tags"] if x in SCHEDULE or x in MANUAL] or ["daily"]
    if how == "api" and rng.random() < 0.2:
        op["tags"] = []
    some = [r["tags"] for r, _ in h if r["tags"]] or [["daily"]]
    if op["hasExpect"]:
        op["expect"] = rng.choice(some) if rng.random() < 0.9 else ["zz"]
        if how == "api" and rng.random() < 0.2:
            op["expect"] = []
        if rng.random() < 0.5:   # let it match
            for r, _ in h:
                r["tags"] = op["expect"]
            if basis is old:
                for r, _ in old:
                    r["tags"] = op["expect"]
                put(repo, old)
                rp = opened(repo)
            put(repo, h)
    if op["action"] == "remove" and rng.random() < 0.4:
        op["tags"] = rng.choice(some)
    locked = rng.random() < 0.12
    before = view(repo)
    case = dict(kind=kind, how="spec", t=[v[k][0] for k in toks], text=text, ids=[], op=op, before=before,
                scheduled=list(SCHEDULE), manual=MANUAL, locked=locked, via=how)
    fd = None
    if locked:
        fd = open(repo / ".backup", "a")
        fcntl.flock(fd, fcntl.LOCK_EX if rng.random() < 0.8 else fcntl.LOCK_SH)
    try:
        if how == "cmd":
            if kind == "tags":
                ok = command(repo, "tags", dict(
                    tag_action=op["action"], autoremove=op["autoremove"], revision=text, force=op["force"],
                    expect=", ".join(op["expect"]) if op["hasExpect"] else None, tags=",".join(op["tags"])))
            else:
                ok = command(repo, kind, dict(revision=text))
        elif how == "cli":
            if kind == "tags":
                a = ["tags"] + ["--autoremove"] * op["autoremove"] + ["-f"] * op["force"]
                a += ["--expect", ",".join(op["expect"])] * op["hasExpect"]
                ok = w.cli(*a, op["action"], "-r", text, ",".join(op["tags"])) == 0
            else:
                ok = w.cli(kind, "-r", text) == 0
        else:
            try:
                if kind == "tags":
                    ok = rp.tags(op["action"], text, set(op["tags"]), expect=set(op["expect"]) if op["hasExpect"] else None,
                                 autoremove=op["autoremove"], force=op["force"])
                else:
                    try:
                        revs = rp.find_revisions(text)
                    except Exception:
                        return None
                    case.update(how="ids", ids=[r.uuid for r in revs])
                    getattr(rp, kind)(revs)
                    ok = True
            except Exception:
                ok = False
    finally:
        if fd:
            fd.close()
    case["ok"] = bool(ok)
    try:
        case["after"] = view(repo)
    except Exception as e:
        case["after"] = []
        case["note"] = f"unreadable: {e}"
    return case


def job(seed, n):
    rng = random.Random(seed)
    out = []
    d = mkscratch("tg")
    try:
        w = World(d, kind="file", schedule=SCHEDULE)
        for _ in range(n):
            c = one(rng, d, w)
            if c:
                out.append(c)
    finally:
        rmtree(d)
    return out


def run(c):
    q = c.quick
    c.mc("TagsMC", CFG, workers=8, timeout=600, heap="8g")
    rng = c.rng
    jobs = [(rng.randrange(1 << 40), 60) for _ in range(90 if q else 1500)]
    traces = []
    for a, st, out in pmap(job, jobs, budget=40 if q else 450):
        if st != "ok":
            raise CheckError(out)
        traces.append(dict(cases=out))
    n = sum(len(t["cases"]) for t in traces)
    ok = sum(1 for t in traces for x in t["cases"] if x["ok"] and x["before"] != x["after"])
    c.log(f"{n} edits by the real code, {ok} with an effect")
    probs, stats = validate("TagsTrace", traces, min_batch=4)
    stats["traces"] = n
    c.add_traces(stats)
    for i, rec in probs:
        c.violation(rec["k"], traces[i]["cases"][rec["i"] - 1])
    c.extra["edits"] = n
    c.extra["effective_edits"] = ok
    c.sample(traces[0]["cases"][:2])
