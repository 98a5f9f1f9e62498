"""Sequences of operations on chunked files, judged by ByteFile (ChunkTrace)."""
import hashlib
import json
import random
import re

from common import SEED, CheckError, mkscratch, rmtree, run_tlc, validate
from pool import pmap
from world import nolog

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW view
CONSTANTS
  C = 2
  MaxSize = 7
  Target = 1
  MaxOps = {n}
  Bugs = {{}}
  Gen = {gen}
INVARIANTS {inv}
"""
U = 4  # units per chunk
REAL = 4 * 1024 * 1024


class Scale:
    """Positions in units <-> bytes; a symbol fills the unit's interval."""

    def __init__(self, real):
        self.cuts = [0, 1, REAL // 2, REAL - 1] if real else [0, 1, 2, 3]
        self.ch = REAL if real else U

    def pos(self, u):
        if u < 0:
            return -self.pos(-u)
        return (u // U) * self.ch + self.cuts[u % U]

    def unpos(self, b):
        k, o = divmod(b, self.ch)
        return k * U + self.cuts.index(o) if o in self.cuts else -7

    def fill(self, at, syms):
        return b"".join(bytes([s]) * (self.pos(at + i + 1) - self.pos(at + i)) for i, s in enumerate(syms))

    def read(self, at, data):
        """symbols of data found at unit position at"""
        out, o = [], 0
        while o < len(data):
            n = self.pos(at + 1) - self.pos(at)
            part = data[o:o + n]
            out.append(part[0] if len(part) == n and part.count(part[0]) == n else -5)
            o, at = o + n, at + 1
        return out


class Run:
    def __init__(self, d, real, rng):
        from backy.rbd.chunked import File, Store
        from backy.rbd.chunked.chunk import Chunk

        Chunk.CHUNK_SIZE = REAL if real else U
        self.d, self.sc, self.File, self.Store, self.rng = d, Scale(real), File, Store, rng
        self.log = nolog()
        self.open = {}
        self.store = None
        self.force = False
        self.ev = []
        self.cache = {}

    def chunk(self, p):
        """(digest, symbols of the units) of a stored chunk"""
        import lzo

        st = p.stat()
        key = (str(p), st.st_mtime_ns, st.st_ino)
        if key not in self.cache:
            d = lzo.decompress(p.read_bytes())
            self.cache[key] = (hashlib.md5(d).digest(), self.sc.read(0, d))
        return self.cache[key]

    def decode(self, i):
        p = self.d / f"f{i}"
        if not p.exists():
            return [-2]
        try:
            m = json.loads(p.read_text())
            n = self.sc.unpos(m["size"])
            out = []
            for k in range((n + U - 1) // U):
                h = m["mapping"][str(k)]
                syms = self.chunk(self.d / "store" / h[:2] / (h + ".chunk.lzo"))[1][:n - k * U]
                if len(syms) < min(U, n - k * U):
                    return [-3]
                out += syms
            return out
        except Exception:
            return [-3]

    def files(self):
        return sorted((str(p.relative_to(self.d)), p.stat().st_mtime_ns, p.stat().st_size)
                      for p in self.d.rglob("*") if p.is_file())

    def dups(self):
        seen, n = set(), 0
        for p in (self.d / "store").glob("*/*"):
            try:
                h = self.chunk(p)[0]
            except Exception:
                h = p.name
            n += h in seen
            seen.add(h)
        return n

    def do(self, a):
        i, op = a["id"], a["op"]
        e = dict(id=i, op=op, mode=a.get("mode", ""), n=a.get("n", 0), whence=a.get("whence", 0),
                 data=a.get("data", []), src=a.get("src", 0), out=[], err=False, pos=-1, disk=[],
                 changed=False, dups=0)
        f = self.open.get(i)
        before = self.files() if f and not f.writable() else None
        at = None
        try:
            if op == "open":
                if self.store is None or (not self.open and a.get("fresh")):
                    self.store = self.Store(self.d / "store", self.log)
                self.store.force_writes = bool(a.get("force"))
                self.open[i] = self.File(self.d / f"f{i}", self.store, a["mode"])
            elif op == "copy":
                s = self.d / f"f{a['src']}"
                t = self.d / f"f{i}"
                if s.exists():
                    t.write_bytes(s.read_bytes())
                elif t.exists():
                    t.unlink()
            elif op == "seek":
                # distances from the end and from here depend on the position
                n, w = a["n"], a.get("whence", 0)
                if w == 0:
                    b = self.sc.pos(n)
                elif w == 1:
                    cur = self.sc.unpos(f.tell())
                    b = self.sc.pos(cur + n) - self.sc.pos(cur)
                else:
                    p = f.tell()
                    end = f.seek(0, 2)
                    f.seek(p) if p <= end else None
                    if p > end:
                        b = None
                    else:
                        u = self.sc.unpos(end)
                        b = end - self.sc.pos(u - n)
                if b is None:  # position after the end: plain seek to the end first
                    u = self.sc.unpos(f.tell())
                    b = f.tell() - self.sc.pos(u - n)
                e["out"] = [self.sc.unpos(f.seek(b, w))]
            elif op == "tell":
                e["out"] = [self.sc.unpos(f.tell())]
            elif op == "read":
                at = self.sc.unpos(f.tell())
                n = a["n"]
                b = -1 if n == -1 else self.sc.pos(at + n) - self.sc.pos(at)
                e["out"] = self.sc.read(at, f.read(b))
            elif op == "write":
                at = self.sc.unpos(f.tell())
                f.write(self.sc.fill(at, a["data"]))
            elif op == "truncate":
                f.truncate(*([] if a["n"] == -1 else [self.sc.pos(a["n"])]))
            elif op == "flush":
                f.flush()
            elif op == "close":
                f.close()
                del self.open[i]
        except Exception as x:
            e["err"] = True
            e["exc"] = f"{type(x).__name__}: {x}"[:150]
        if op == "close":
            self.open.pop(i, None)
        if i in self.open:
            try:
                e["pos"] = self.sc.unpos(self.open[i].tell())
            except Exception:
                e["pos"] = -9
        if op in ("flush", "truncate", "close", "copy"):
            e["disk"] = self.decode(i)
            e["dups"] = self.dups() if op != "copy" else 0
        if before is not None:
            e["changed"] = self.files() != before
        self.ev.append(e)
        return e


def random_ops(rng, n, big):
    """A random sequence on two files of one store."""
    ops, modes = [], {}
    top = rng.choice([6, 13, 40]) if not big else rng.choice([13, 90, 120])
    syms = rng.choice([[1], [1, 2], [1, 2, 3, 0]])

    def at():
        return rng.choice([rng.randrange(top), 4 * rng.randrange(1 + top // 4) + rng.choice([0, 0, 1, 3])])

    def data():
        m = rng.choice([1, 2, 3, 4, 4, 5, 8, 9])
        if rng.random() < 0.5:
            return [rng.choice(syms)] * m
        return [rng.choice(syms) for _ in range(m)]

    while len(ops) < n:
        i = 1 if rng.random() < 0.75 else 2
        if i not in modes:
            if rng.random() < 0.15 and not modes:
                ops.append(dict(id=i, op="copy", src=3 - i))
            m = rng.choice(["rw", "rw", "rw", "r", "w", "a", "r+"])
            ops.append(dict(id=i, op="open", mode=m, fresh=rng.random() < 0.5, force=rng.random() < 0.2))
            modes[i] = m
            continue
        k = rng.random()
        if k < 0.3:
            ops.append(dict(id=i, op="write", data=data()))
        elif k < 0.55:
            w = rng.choice([0, 0, 0, 1, 2])
            v = at() if w == 0 else rng.choice([-3, -1, 0, 1, 4]) if w == 1 else rng.choice([0, 0, 1, 4, 5])
            ops.append(dict(id=i, op="seek", n=v, whence=w))
        elif k < 0.75:
            ops.append(dict(id=i, op="read", n=rng.choice([-1, 0, 1, 2, 4, 5, 11])))
        elif k < 0.81:
            ops.append(dict(id=i, op="truncate", n=rng.choice([-1, at(), at()])))
        elif k < 0.86:
            ops.append(dict(id=i, op="flush"))
        elif k < 0.89:
            ops.append(dict(id=i, op="tell"))
        elif k < 0.93 and big:
            # touch many chunks: memory holds only some of them
            lo = rng.randrange(3)
            for c in rng.sample(range(lo, lo + 24), rng.choice([8, 22, 23])):
                ops.append(dict(id=i, op="seek", n=4 * c + rng.choice([0, 1, 2]), whence=0))
                ops.append(dict(id=i, op="write", data=[rng.choice([1, 2])]) if rng.random() < 0.8
                           else dict(id=i, op="read", n=1))
        else:
            ops.append(dict(id=i, op="close"))
            del modes[i]
    for i in list(modes):
        ops.append(dict(id=i, op="close"))
    for i in (1, 2):
        ops += [dict(id=i, op="open", mode="r", fresh=True), dict(id=i, op="read", n=-1),
                dict(id=i, op="close")]
    return ops


def scaled(hist):
    """A history of ChunkFile (2 units per chunk) with 4 units per chunk."""
    ops = []
    for a in hist:
        a = dict(a, id=1)
        if a["n"] > 0:
            a["n"] = 2 * a["n"]
        a["data"] = [x for x in a["data"] for _ in (0, 1)]
        ops.append(a)
    ops += [dict(id=1, op="close"), dict(id=1, op="open", mode="r", fresh=True),
            dict(id=1, op="read", n=-1), dict(id=1, op="close")]
    return ops


def execute(ops, real):
    d = mkscratch("cf")
    try:
        r = Run(d, real, None)
        for a in ops:
            if a["op"] not in ("open", "copy") and a["id"] not in r.open:
                continue  # the open failed, judged there
            if a["op"] == "open" and a["id"] in r.open:
                continue
            e = r.do(a)
            if a["op"] == "seek" and a.get("whence", 0) != 0 and e["pos"] == -7:
                break
        return r.ev
    finally:
        rmtree(d)


def job(kind, seed, real, arg):
    if kind == "many":
        res = []
        for s in range(seed, seed + arg[0]):
            rng = random.Random(s)
            ops = random_ops(rng, rng.choice([12, 30, 60]), rng.random() < arg[1])
            res.append((ops, execute(ops, real)))
        return res
    return [(o, execute(o, real)) for o in arg]


def small_effective():
    """Does patching the chunk size work on this tree?"""
    try:
        ev = execute([dict(id=1, op="open", mode="rw", fresh=True), dict(id=1, op="write", data=[1, 1, 1, 2, 2]),
                      dict(id=1, op="close")], False)
        return not any(e["err"] for e in ev) and ev[-1]["disk"] == [1, 1, 1, 2, 2]
    except Exception:
        return False


def judge(c, runs):
    """[(ops, clauses)] of the sequences with problems"""
    traces = [t for _, t in runs]
    strip = [[{k: v for k, v in e.items() if k != "exc"} for e in t] for t in traces]
    probs, stats = validate("ChunkTrace", strip, min_batch=10)
    c.add_traces(stats)
    bad = {}
    for i, rec in probs:
        bad.setdefault(i, []).append((rec["k"], rec["i"]))
    return bad


def run(c):
    quick = c.quick
    c.mc("ChunkFile", CFG.format(n=5 if quick else 7, gen="FALSE", inv="Refines"),
         workers=8, timeout=800, heap="10g")
    r = run_tlc("ChunkFile", CFG.format(n=9, gen="TRUE", inv="GenPrint").replace("VIEW view\n", ""),
                workers=1, simulate=400 if quick else 4000, depth=12, seed=SEED)
    gen = {json.dumps(h): h for h in r.prints}
    hs = [scaled(gen[k]) for k in sorted(gen)]
    if len(hs) < 20:
        raise CheckError("no behaviours generated")
    c.log(f"{len(hs)} behaviours of ChunkFile")
    small = small_effective()
    rng = c.rng
    jobs = []
    if small:
        for k in range(0, len(hs), 50):
            jobs.append(("list", 0, False, hs[k:k + 50]))
        for _ in range(30 if quick else 400):
            jobs.append(("many", rng.randrange(1 << 40), False, (20, 0.4)))
    for _ in range(24 if quick else 240):
        jobs.append(("many", rng.randrange(1 << 40), True, (2 if small else 6, 0.7)))
    if not small:
        jobs.append(("list", 0, True, hs[:100]))
    res = pmap(job, jobs, budget=40 if quick else 600)
    runs, kinds = [], []
    for a, st, out in res:
        if st != "ok":
            raise CheckError(out)
        runs += out
        kinds += [a[2]] * len(out)
    c.log(f"{len(runs)} sequences executed ({kinds.count(True)} with real chunk size)")
    bad = judge(c, runs)
    # deviations with the reduced chunk size have to occur with the real one
    redo = [i for i in sorted(bad) if not kinds[i]][:40]
    again = {}
    if redo:
        c.log(f"{len(redo)} deviations to confirm with the real chunk size")
        rr = []
        for a, st, out in pmap(job, [("list", k, True, [runs[k][0]]) for k in redo]):
            if st != "ok":
                raise CheckError(out)
            rr.append((a[1], out[0]))
        b2 = judge(c, [x for _, x in rr])
        for j, (k, x) in enumerate(rr):
            if j in b2:
                again[k] = (x, b2[j])
    for i in bad:
        if kinds[i]:
            again[i] = (runs[i], bad[i])
    for i, ((ops, t), ps) in again.items():
        for k, at in ps:
            c.violation(k, dict(event=t[at - 1], before=[
                {x: e[x] for x in ("id", "op", "mode", "n", "whence", "data", "err") if e[x] not in ("", [])}
                for e in t[max(0, at - 12):at - 1]]))
    for ops, t in runs[:2]:
        c.sample([dict(op=e["op"], n=e["n"], data=e["data"], out=e["out"]) for e in t][:12])
    c.extra["operations"] = sum(len(t) for _, t in runs)
    c.extra["sequences_real_chunk_size"] = kinds.count(True)
