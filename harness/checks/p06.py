"""Change streams generated from DiffMC, applied by the real code."""
import io
import json
import random

from common import CheckError, mkscratch, rmtree, run_tlc, validate
from fakestream import encode, image, piece
from pool import pmap
from world import CH, World, nolog

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MinLen = {lo}
  MaxLen = {n}
  Vals = {{0, 1, 2}}
  MaxRecs = {r}
  Emit = {emit}
  MayBreak = {brk}
INVARIANTS Exact Accepts Oracle
"""


def cutpoints(rng, n, ch, real):
    """n pieces of an image in bytes"""
    if rng.random() < 0.3:
        u = rng.choice([512, ch // 4, ch // 2, ch] if real else [1, ch // 4, ch])
        return [k * u for k in range(n + 1)]
    cand = set()
    for k in range(4):
        for o in (0, 1, ch - 1, ch // 2, rng.randrange(ch), 512 % ch):
            cand.add(k * ch + o)
    cand.discard(0)
    return [0] + sorted(rng.sample(sorted(cand), n))


def values(data, cuts, vals):
    """what a stored image holds, in the model's terms"""
    if len(data) not in cuts:
        return [-1, len(data)]
    out, k = [], 0
    while cuts[k] < len(data):
        part = data[cuts[k]:cuts[k + 1]]
        out.append(next((v for v in vals if part == piece(v, k, len(part))), -1))
        k += 1
    return out


def with_junk(rng, st):
    """the unreadable tokens as bytes"""
    res = []
    for t in st:
        if t["r"] == "bad":
            t = dict(t, hex=rng.choice(["00", "58", "ff", "72626420", "0a", "79", "49", "c3a9"]))
        if t.get("name") == "C":
            t = dict(t, alt=rng.choice([0, 1, 2, 3, 4, 5, 6]))
        res.append(t)
    return res


def apply_job(seed, scripts, small):
    """integrate into a chunked file and into a plain file"""
    from backy.rbd.chunked import File, Store
    from backy.rbd.chunked.chunk import Chunk
    from backy.rbd.rbd import RBDDiffV1

    rng = random.Random(seed)
    out = []
    ch = Chunk.CHUNK_SIZE = 16 if small else CH
    d = mkscratch("df")
    try:
        store = Store(d / "chunks", nolog())
        for n, s in enumerate(scripts):
            st = with_junk(rng, s["st"])
            size = max(len(s["old"]), len(s["new"]), max([t["n"] for t in st if t["r"] == "s"], default=0),
                       max([t["b"] for t in st if "b" in t], default=0))
            cuts = cutpoints(rng, size, ch, not small)
            toks = encode(st, cuts, "snap-a", "backy-b")
            data = b"".join(toks)
            base = image(s["old"], cuts)
            (d / "old").unlink(missing_ok=True)
            with File(d / "old", store, "wb") as f:
                f.write(base)
            (d / "plain").write_bytes(base)
            if small:
                lens = list(range(len(data) + 1)) if n % 4 == 0 else [len(data), rng.randrange(len(data) + 1)]
            else:
                lens = [len(data)] + ([rng.randrange(len(data))] if rng.random() < 0.3 and data else [])
            seen = set()
            for ln in lens:
                ntok, o = 0, 0
                while ntok < len(toks) and o + len(toks[ntok]) <= ln:
                    o += len(toks[ntok])
                    ntok += 1
                for target in ("chunked", "plain"):
                    if target == "plain" and rng.random() < 0.5:
                        continue
                    src = io.BytesIO(data[:ln])
                    if rng.random() < 0.2:
                        src = io.BufferedReader(src, 64)
                    ok, img = True, []
                    try:
                        if target == "chunked":
                            (d / "new").write_bytes((d / "old").read_bytes())
                            with File(d / "new", store, rng.choice(["wb", "r+b"])) as f:
                                RBDDiffV1(src).integrate(f, "snap-a", "backy-b")
                            with File(d / "new", store, "rb") as f:
                                img = readall(f)
                        else:
                            (d / "new").write_bytes(base)
                            with open(d / "new", "r+b") as f:
                                RBDDiffV1(src).integrate(f, "snap-a", "backy-b")
                            img = (d / "new").read_bytes()
                        img = values(img, cuts, [0, 1, 2])
                    except Exception:
                        ok, img = False, []
                    c = dict(kind="apply", old=s["old"], st=st[:ntok], part=ln > o, ok=ok, img=img)
                    key = json.dumps(c)
                    if key not in seen:
                        seen.add(key)
                        out.append(dict(c, target=target, cuts=cuts, at=ln))
    finally:
        rmtree(d)
        Chunk.CHUNK_SIZE = CH
    return out


def readall(f):
    out = []
    while b := f.read(CH):
        out.append(b)
    return b"".join(out)


def revs_of(w):
    return {u: r for u, r in w.observe()["revs"].items() if r["clean"]}


def content_of(w, u, cuts):
    """bytes of a stored revision, decoded independently"""
    import lzo

    try:
        meta = json.loads((w.repo / u).read_text())
        mp = {int(k): v for k, v in meta["mapping"].items()}
        out = b""
        for i in range((meta["size"] + CH - 1) // CH):
            h = mp[i]
            out += lzo.decompress((w.repo / "chunks" / h[:2] / (h + ".chunk.lzo")).read_bytes()).ljust(CH, b"\0")
        return values(out[:meta["size"]], cuts, [0, 1, 2])
    except Exception as e:
        return [-2]


def run_job(seed, scripts):
    rng = random.Random(seed)
    out = []
    for s in scripts:
        d = mkscratch("dr")
        try:
            st = with_junk(rng, s["st"])
            n = max(len(s["old"]), len(s["new"]))
            cuts = cutpoints(rng, n, CH, True)
            w = World(d / "w")
            from common import VERIF

            w.env["FAKE_RBD_DIFF"] = str(VERIF / "harness/fakestream.py")
            w.set_image(image(s["old"], cuts))
            if rng.random() < 0.25:
                # a full export, perhaps ending early
                data = image(s["old"], cuts)
                cut = rng.random() < 0.8 and len(data) > 0
                if cut:
                    k = rng.choice([0, min(1, len(data) - 1), len(data) - 1, rng.randrange(len(data)), len(data) // 2,
                                    min(len(data) - 1, (len(data) - 1) // CH * CH)])
                    w.fault("export", k)
                w.tick(3600)
                rc = w.cli("backup", "-f", "daily")
                rv = revs_of(w)
                out.append(dict(kind="export", new=s["old"], cut=cut, ok=rc == 0, complete=bool(rv), before=True,
                                img=content_of(w, next(iter(rv)), cuts) if rv else [], cuts=cuts,
                                at=k if cut else -1))
                continue
            w.tick(3600)
            rc = w.cli("backup", "-f", "daily")
            rv = revs_of(w)
            if rc != 0 or len(rv) != 1:
                out.append(dict(kind="export", new=s["old"], cut=False, ok=rc == 0, complete=bool(rv), before=True,
                                img=[], cuts=cuts, at=-1))
                continue
            first = next(iter(rv))
            w.set_image(image(s["new"], cuts))
            part, keep, tks = False, None, st
            if s["broken"] == "no" and rng.random() < 0.5:
                # cut somewhere in the bytes
                keep = rng.random()
                snap = "backy-" + "x" * len(first)
                toks = encode(st, cuts, snap, snap)
                ln = int(sum(map(len, toks)) * keep)
                ntok, o = 0, 0
                while ntok < len(toks) and o + len(toks[ntok]) <= ln:
                    o += len(toks[ntok])
                    ntok += 1
                tks, part = st[:ntok], ln > o
            (w.rbd / "stream.json").write_text(json.dumps(dict(
                st=st, cuts=cuts, keep=keep, rc=rng.choice([0, 1]) if keep is not None or s["broken"] != "no" else 0)))
            w.tick(3600)
            rc = w.cli("backup", "-f", "daily")
            rv2 = revs_of(w)
            fresh = [u for u in rv2 if u != first]
            out.append(dict(kind="run", old=s["old"], new=s["new"], st=tks, part=part, ok=rc == 0,
                            complete=bool(fresh), img=content_of(w, fresh[0], cuts) if fresh else [],
                            before=rv2.get(first, {}).get("cont") == rv[first]["cont"] and
                            content_of(w, first, cuts) == s["old"], cuts=cuts, keep=str(keep), broken=s["broken"]))
        finally:
            rmtree(d)
    return out


def work(kind, *a):
    return apply_job(*a) if kind == "apply" else run_job(*a)


def scripts(c, n, brk, lo, hi, recs):
    r = run_tlc("DiffMC", CFG.format(lo=lo, n=hi, r=recs, emit="TRUE", brk=brk), workers=4, simulate=max(1, n // 4),
                depth=60, seed=c.rng.randrange(1 << 30))
    if r.violated:
        raise CheckError(r.out[-3000:])
    seen, out = set(), []
    for p in r.prints:
        k = json.dumps(p, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(p)
    c.transitions += r.states
    c.rng.shuffle(out)
    return out


def chunks(x, n):
    return [x[k:k + n] for k in range(0, len(x), n)]


def run(c):
    q = c.quick
    c.mc("DiffMC", "DiffMC.cfg" if q else CFG.format(lo=0, n=2, r=3, emit="FALSE", brk="TRUE"), workers=8, timeout=850,
         heap="12g")
    rng = c.rng
    n = 1500 if q else 30000
    good = scripts(c, n, "FALSE", 2, 6, 4) + scripts(c, n // 4, "FALSE", 0, 3, 2)
    rng.shuffle(good)
    bad = scripts(c, n // 2, "TRUE", 1, 6, 3)
    c.log(f"{len(good)} good and {len(bad)} possibly broken streams from the specification")
    jobs = []
    runs = good[:60 if q else 1200] + bad[:50 if q else 1000]
    rng.shuffle(runs)
    for part in chunks(runs, 5):
        jobs.append(("run", rng.randrange(1 << 40), part))
    for part in chunks(good[:250 if q else 4000] + bad[:100 if q else 1500], 10):
        jobs.append(("apply", rng.randrange(1 << 40), part, False))
    for part in chunks(good + bad, 25):
        jobs.append(("apply", rng.randrange(1 << 40), part, True))
    traces = []
    for a, st, out in pmap(work, jobs, budget=50 if q else 600):
        if st != "ok":
            raise CheckError(out)
        traces.append(dict(cases=out))
    kinds = {}
    for t in traces:
        for x in t["cases"]:
            k = x["kind"] + ("+" if x["ok"] else "-")
            kinds[k] = kinds.get(k, 0) + 1
    m = sum(kinds.values())
    c.log(f"{m} streams applied: {kinds}")
    probs, stats = validate("DiffTrace", traces, min_batch=4)
    stats["traces"] = m
    c.add_traces(stats)
    for i, rec in probs:
        if rec["k"] == "bad-case":
            raise CheckError(str(traces[i]["cases"][rec["i"] - 1]))
        c.violation(rec["k"], traces[i]["cases"][rec["i"] - 1])
    c.extra["streams"] = kinds
    c.sample(traces[0]["cases"][:2])
