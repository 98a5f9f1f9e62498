"""Status and check of real daemons, judged by Status.tla."""
import datetime
import random
import re

from common import CheckError, mkscratch, rmtree, validate
from dmn import Server, file_source, run_loop
from pool import pmap
from revs import UTC, revdict, write_rev
from world import nolog, set_now

T0 = datetime.datetime(2030, 5, 1, 8, 0, 0, tzinfo=UTC)
Q = 4
NAMES = ["vm1", "vm10", "vm.1", "test-a", "b+", "xvm1", "daily"]
PATTERNS = ["", ".*", "vm", "^vm1$", "vm1", "^vm.1$", r"\.", "a|b", "nothing", "^(?!vm)", "1$", "^$"]
INTERVALS = [("10m", 600), ("1h", 3600), ("24h", 86400), ("1d", 86400), ("1w", 604800), ("90s", 90), ("15", 15)]


def tm(t):
    return T0 + datetime.timedelta(microseconds=t * 250000)


def units(x):
    if isinstance(x, str):
        x = datetime.datetime.fromisoformat(x)
    n, r = divmod((x - T0) // datetime.timedelta(microseconds=1), 250000)
    return n if not r else -10 ** 8


def rand_schedule(rng):
    cfg, iv = {}, {}
    for g in rng.sample(["daily", "weekly", "x", "a b", "ü"], rng.choice([1, 2, 3])):
        s, n = rng.choice(INTERVALS)
        cfg[g] = {"interval": s, "keep": 1}
        iv[g] = n * Q
    return cfg, iv


def rand_revs(rng, iv, now):
    short = min(iv.values())
    revs = {}
    used = set()
    for k in range(rng.choice([0, 1, 1, 2, 3, 5])):
        age = rng.choice([short, short * 3 // 2, short * 3 // 2 - 1, short * 3 // 2 + 1, short * 3 // 2 + 2, short * 2,
                          0, 1, rng.randrange(1, 3 * short), rng.randrange(1, 3 * short)])
        while age in used and rng.random() < 0.9:
            age += 1
        used.add(age)
        srv = rng.choice(["", "", "s1", "s2"])
        tags = [g for g in list(iv) + ["manual:a", "manual:b c", "old"] if rng.random() < 0.5]
        orig = (tags if rng.random() < 0.5 else [g for g in tags if rng.random() < 0.5]) if srv else []
        clean = rng.random() < 0.7
        revs[f"r{k}"] = dict(t=now - age, tags=tags, orig=orig, server=srv, clean=clean,
                             dur=rng.choice([0, 1500, 599999, 600001, 86400000]) if clean else 0)
    return revs


def rev_on_disk(u, r):
    return revdict(u, tm(r["t"]), tags=r["tags"], orig=r["orig"], server=r["server"],
                   duration=r["dur"] / 1000 if r["clean"] else None)


def put(path, job, rng):
    for f in path.glob("*.rev"):
        f.unlink()
    for f in (path / "quarantine").glob("*"):
        f.unlink()
    for u, r in job["revs"].items():
        write_rev(path, rev_on_disk(u, r))
    (path / "quarantine").mkdir(exist_ok=True)
    for k in range(job["reports"]):
        (path / "quarantine" / f"rep{k}.report").write_text("x: 1\n")
    if rng.random() < 0.3:
        (path / "quarantine" / "note.txt").write_text("")
    if job["revs"] and rng.random() < 0.3:
        u = rng.choice(sorted(job["revs"]))
        if not (path / "last.rev").is_symlink():
            (path / "last.rev").symlink_to(f"{u}.rev")


def record(s, status):
    sp = lambda x: [p for p in x.split(",")] if x else []
    return dict(job=s["job"], sla=s["sla"], overdue=int(s["sla_overdue"] * Q) if s["sla_overdue"] * Q == int(
        s["sla_overdue"] * Q) else -1, status=s["status"],
        has_last=s["last_time"] is not None, last_time=units(s["last_time"]) if s["last_time"] else 0,
        last_tags=sp(s["last_tags"]), last_duration=int(round((s["last_duration"] or 0) * 1000)),
        has_next=s["next_time"] is not None, next_time=units(s["next_time"]) if s["next_time"] else 0,
        next_tags=sp(s["next_tags"]), manual=s["manual_tags"].split(", ") if s["manual_tags"] else [],
        reports=s["problem_reports"], unsynced=s["unsynced_revs"], local=s["local_revs"])


async def scene(d, rng, out):
    from backy.cli import Command
    from backy.daemon.api import Client

    now = rng.randrange(10 ** 6, 2 * 10 ** 6)
    set_now(tm(now))
    scheds = {f"s{k}": rand_schedule(rng) for k in range(2)}
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
    use = {n: rng.choice(list(scheds)) for n in names}
    srv = Server(d, schedules={k: v[0] for k, v in scheds.items()},
                 jobs={n: {"source": file_source(d / "x"), "schedule": use[n]} for n in names})
    try:
        dm = await srv.idle()
        await srv.serve()
        for rounds in range(2):
            if rounds and rng.random() < 0.5:
                scheds = {k: rand_schedule(rng) for k in scheds}
                srv.conf["schedules"] = {k: v[0] for k, v in scheds.items()}
                srv.write()
                dm._read_config()
                dm._apply_config()
            now += rng.choice([0, 1, 600 * Q, 10 ** 5])
            set_now(tm(now))
            jobs = {}
            for n in names:
                iv = scheds[use[n]][1]
                jobs[n] = j = dict(revs=rand_revs(rng, iv, now), sched=iv, reports=rng.choice([0, 0, 0, 1, 2]),
                                   status=rng.choice(["", "waiting for deadline", "running (slow)"]),
                                   has_next=rng.random() < 0.6, next_time=0, next_tags=[])
                put(srv.base / n, j, rng)
                o = dm.jobs[n]
                o.status = j["status"]
                if j["has_next"]:
                    j["next_time"] = now + rng.randrange(10 ** 5)
                    j["next_tags"] = rng.sample(sorted(iv), rng.randrange(1, len(iv) + 1))
                    o.next_time, o.next_tags = tm(j["next_time"]), set(j["next_tags"])
                else:
                    o.next_time = o.next_tags = None
            manual = ["manual:a", "manual:b c"]
            base = dict(jobs=jobs, now=now, manual=manual)
            for pat in rng.sample(PATTERNS, 4):
                match = [n for n in names if re.search(pat, n)]
                case = dict(base, kind="status", match=match, err="", got=[], pat=pat)
                try:
                    if rng.random() < 0.5:
                        case["got"] = [record(s, None) for s in dm.status(re.compile(pat) if pat else None)]
                    else:
                        async with Client("x", srv.url, "tok-cli", "t", nolog()) as cl:
                            case["got"] = [record(s, None) for s in await cl.fetch_status(pat)]
                except Exception as e:
                    case["err"] = f"{type(e).__name__}: {e}"
                out.append(case)
            for pat in [None] + rng.sample(PATTERNS[1:], 3):
                n = rng.choice(names)
                match = [n] if pat is None else [x for x in names if re.search(pat, x)]
                cmd = Command(srv.base / n if pat is None else d, srv.file, False, pat, nolog())
                rc = await cmd("check", {})
                if "api" in cmd.__dict__:
                    await cmd.api.close()
                out.append(dict(base, kind="check", match=match, exit=rc, pat=pat or "-C"))
    finally:
        await srv.stop()


def job(seed, n):
    rng = random.Random(seed)
    out = []
    for _ in range(n):
        d = mkscratch("st")
        try:
            run_loop(scene(d, rng, out))
        finally:
            rmtree(d)
    return out


def run(c):
    q = c.quick
    c.mc("StatusMC", "StatusMC.cfg" if q else """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Horizon = 9
  MaxRevs = 3
INVARIANTS Alarm Exit
PROPERTIES Ends
""", workers=8, timeout=800, heap="10g")
    rng = c.rng
    jobs = [(rng.randrange(1 << 40), 8) for _ in range(64 if q else 1000)]
    traces = []
    for a, st, out in pmap(job, jobs, budget=35 if q else 400):
        if st != "ok":
            raise CheckError(out)
        traces.append(dict(cases=out))
    n = sum(len(t["cases"]) for t in traces)
    c.log(f"{n} answers by the real code")
    probs, stats = validate("StatusTrace", traces, min_batch=4)
    stats["traces"] = n
    c.add_traces(stats)
    for i, rec in probs:
        c.violation(rec["k"], traces[i]["cases"][rec["i"] - 1])
    c.extra["answers"] = n
    c.sample(traces[0]["cases"][:2])
