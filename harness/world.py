"""A repository with its storage cluster, driven through the real commands.

Every command runs the real code of /repo in a forked child; everything it
leaves behind is observed by decoding the on-disk formats independently.
"""
import datetime
import hashlib
import json
import os
import random
import re
import shutil
import stat
import subprocess
import sys
import time
from pathlib import Path

import yaml

from common import VERIF, scratch_root
from procs import Child, Points

CH = 4 * 1024 * 1024
BASE = datetime.datetime(2030, 1, 7, 12, 0, 0, tzinfo=datetime.timezone.utc)
DEFAULT_SCHEDULE = {
    "daily": {"interval": "1d", "keep": 2},
    "weekly": {"interval": "7d", "keep": 2},
}


def preload():
    """Import the code under test once; children are forked from this."""
    _quiet()
    try:
        import backy.cli
        import backy.file
        import backy.rbd.backup
        import backy.rbd.quarantine
        import backy.repository
        import backy.schedule
        import tzlocal
    except Exception:
        pass  # a broken import shows up in every command


def setup_programs():
    """fakerbd as the `rbd` program of this run (BACKY_RBD)."""
    t = Path(os.environ["BACKY_RBD"])
    if not t.exists():
        tmp = t.with_name(f"rbd.{os.getpid()}")
        shutil.copy(VERIF / "harness/fakerbd.sh", tmp)
        tmp.chmod(0o755)
        os.rename(tmp, t)
    x = Path(os.environ["BACKY_EXTRACT"])
    if not x.exists():
        x.parent.mkdir(exist_ok=True)
        tmp = x.with_name(f"x.{os.getpid()}")
        tmp.write_text(f"#!/bin/sh\n[ \"${{EXTRACT:-none}}\" = none ] && exit 127\nexec {sys.executable} {VERIF}/harness/fakeextract.py \"$@\"\n")
        tmp.chmod(0o755)
        os.rename(tmp, x)


def _quiet():
    import warnings

    warnings.simplefilter("ignore")


class NoLog:
    """A logger that says nothing."""

    def bind(self, **kw):
        return self

    def __getattr__(self, name):
        return lambda *a, **kw: None


def nolog():
    import structlog

    structlog.configure(processors=[_drop],
                        wrapper_class=structlog.make_filtering_bound_logger(50))
    return structlog.get_logger()


class Clock:
    """Patched in the child: backy sees this time."""

    def __init__(self, t):
        self.t = t

    def __call__(self):
        return self.t() if callable(self.t) else self.t


def patch_child(now, home):
    """Environment of the code under test, in the child only."""
    import backy.source
    import backy.utils

    os.chdir(home)
    _quiet()
    real_now, real_sleep, real_sync = backy.utils.now, time.sleep, os.sync
    backy.utils.now = Clock(now)
    time.sleep = lambda s: None
    os.sync = lambda: None
    random.seed(int(now.timestamp()) ^ 0x5DEECE)
    import tzlocal

    real_run = subprocess.run

    def run(args, *a, **kw):
        name = os.path.basename(str(args[0])) if isinstance(args, (list, tuple)) else ""
        if name in ("backy-rbd", "backy-file") and not kw.get("input"):
            rc = fork_source(name, [str(x) for x in args[1:]])
            return subprocess.CompletedProcess(args, rc)
        return real_run(args, *a, **kw)

    subprocess.run = run
    rename_in_backy({real_now: backy.utils.now, real_sleep: time.sleep,
                     real_sync: os.sync, real_run: run})


_clock = None


def set_now(t):
    """The time backy sees in this (worker) process."""
    global _clock
    import backy.utils

    if _clock is None:
        real = backy.utils.now
        _clock = Clock(t)
        backy.utils.now = _clock
        rename_in_backy({real: _clock})
    _clock.t = t


def rename_in_backy(table):
    """Also replace names that modules of backy imported directly."""
    for n, m in list(sys.modules.items()):
        if (n == "backy" or n.startswith("backy.")) and m is not None:
            for k, v in list(vars(m).items()):
                try:
                    if callable(v) and v in table:
                        setattr(m, k, table[v])
                except TypeError:
                    pass


def source_class(name):
    if name == "backy-rbd":
        from backy.rbd import RBDSource

        return RBDSource
    from backy.file import FileSource

    return FileSource


def fork_source(name, args):
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            r = source_class(name).main(name, *args)
            rc = r if isinstance(r, int) else 0
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            rc = 1
        finally:
            try:
                sys.stdout.flush()
            except Exception:
                pass
            os._exit(rc & 255)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def digest(b):
    return hashlib.md5(b).hexdigest()[:10]


class World:
    def __init__(self, path, *, kind="rbd", full=False, schedule=None, name="job1",
                 cluster=None, source=None):
        setup_programs()
        preload()
        self.root = Path(path)
        self.root.mkdir(parents=True, exist_ok=True)
        self.repo = self.root / name
        self.rbd = self.root / (cluster or "rbd")
        self.kind = kind
        self.full = full
        self.schedule = schedule or DEFAULT_SCHEDULE
        self.now = BASE
        self.out = self.root / "stdout"
        self.err = self.root / "stderr"
        self._chunks = {}
        self.datacache = {}
        self.nchild = 0
        for d in ("images/test/img/snaps", "images/test/other/snaps", "dev", "fault"):
            (self.rbd / d).mkdir(parents=True, exist_ok=True)
        (self.rbd / "images/test/other/head").write_bytes(b"x" * 512)
        (self.rbd / "log").touch()
        self.repo.mkdir(exist_ok=True)
        if kind == "rbd":
            self.source = {"type": "rbd", "pool": "test", "image": "img"}
            if full:
                self.source["full-always"] = True
        else:
            self.srcfile = self.root / "src.bin"
            self.source = {"type": "file", "filename": str(self.srcfile)}
        if source:
            self.source.update(source)
        self.write_config()
        self.env = {
            "FAKE_RBD": str(self.rbd),
            "FAKE_RBD_DIFF": str(VERIF / "harness/fakediff.py"),
        }

    def write_config(self):
        (self.repo / "config").write_text(yaml.safe_dump(
            {"path": str(self.repo), "source": self.source,
             "schedule": self.schedule}))

    # -- the cluster ------------------------------------------------------
    def set_image(self, data: bytes):
        h = self.rbd / "images/test/img/head"
        t = h.with_name("head.new")
        t.write_bytes(data)
        os.rename(t, h)

    def image(self):
        return (self.rbd / "images/test/img/head").read_bytes()

    def image_sum(self, p=None):
        """content as [size, piece digests...]"""
        p = p or self.rbd / "images/test/img/head"
        st = os.stat(p)
        k = ("img", st.st_ino, st.st_mtime_ns, st.st_size)
        if k not in self.datacache:
            self.datacache[k] = content(p.read_bytes())
        return self.datacache[k]

    def fault(self, name, value=None):
        f = self.rbd / "fault" / name
        if value is None:
            f.unlink(missing_ok=True)
        elif isinstance(value, bytes):
            f.write_bytes(value)
        else:
            f.write_text(str(value) + "\n")

    def clear_faults(self):
        for f in (self.rbd / "fault").iterdir():
            f.unlink()
        for f in (self.rbd / "dev").iterdir():
            f.unlink()

    def diffstyle(self, style, seed):
        (self.rbd / "diffstyle").write_text(f"{style} {seed}")

    def snaps(self, image="img"):
        return sorted(x.name for x in (self.rbd / f"images/test/{image}/snaps").iterdir())

    def rm_snap(self, name):
        (self.rbd / "images/test/img/snaps" / name).unlink()

    def add_snap(self, name, image="img"):
        d = self.rbd / f"images/test/{image}"
        if not (d / "snaps" / name).exists():
            os.link(d / "head", d / "snaps" / name)

    def log_lines(self):
        return (self.rbd / "log").read_text().splitlines()

    def clear_log(self):
        (self.rbd / "log").write_text("")

    # -- running ----------------------------------------------------------
    def tick(self, seconds):
        self.now += datetime.timedelta(seconds=seconds)

    def child(self, fn, points=None, now=None):
        now = now or self.now
        self.nchild += 1
        for f in (self.out, self.err):
            try:
                os.unlink(f)
            except FileNotFoundError:
                pass

        def body():
            os.environ.update(self.env)
            patch_child(now, self.root)
            return fn()

        return Child(body, points=points, stdout=str(self.out), stderr=str(self.err))

    def call(self, fn, timeout=120, points=None):
        return self.child(fn, points=points).finish(timeout)

    def cli_fn(self, *args, workdir=True):
        def f():
            import backy.cli

            sys.argv = ["backy"] + (["-C", str(self.repo)] if workdir else []) + [str(a) for a in args]
            backy.cli.main()

        return f

    def src_fn(self, *args):
        name = "backy-" + self.kind

        def f():
            r = source_class(name).main(name, "-C", str(self.repo), *[str(a) for a in args])
            raise SystemExit(r)

        return f

    def cli(self, *args, points=None, timeout=120):
        return rc_of(self.call(self.cli_fn(*args), points=points, timeout=timeout))

    def src(self, *args, points=None, timeout=120):
        return rc_of(self.call(self.src_fn(*args), points=points, timeout=timeout))

    def api_fn(self, fn):
        """fn(repository, log) on a fresh Repository of this world."""

        def f():
            import structlog
            from backy.source import CmdLineSource

            structlog.configure(processors=[_drop])
            log = structlog.stdlib.get_logger()
            s = CmdLineSource.load(self.repo, log)
            return fn(s.repository, log)

        return f

    # -- observation ------------------------------------------------------
    def chunk_state(self, p: Path):
        """'ok'/'bad' and the decoded bytes' key"""
        try:
            st = os.stat(p)
        except FileNotFoundError:
            return None
        except OSError:
            return ("bad", None, None)
        k = (p.name, st.st_ino, st.st_mtime_ns, st.st_size)
        r = self._chunks.get(k)
        if r is None:
            import lzo
            import mmh3

            try:
                d = lzo.decompress(p.read_bytes())
                ok = mmh3.hash_bytes(d).hex() == p.name.split(".")[0]
                r = ("ok" if ok else "bad", d if ok else None, k)
            except Exception:
                r = ("bad", None, k)
            if r[0] == "ok":
                # keep piece digests instead of data
                r = ("ok", Piece(r[1]), k)
            self._chunks[k] = r
        return r

    def chunk_files(self):
        d = self.repo / "chunks"
        res = {}
        if d.is_dir():
            for f in d.glob("*/*.chunk.lzo"):
                res[f.name.split(".")[0]] = f
        return res

    def decode_rev(self, uuid):
        """(refs, content | 'bad' | 'none')"""
        p = self.repo / uuid
        if self.kind == "file":
            try:
                return [], content(p.read_bytes())
            except OSError:
                return [], "none"
        try:
            meta = json.loads(p.read_text())
            mp = {int(k): v for k, v in meta["mapping"].items()}
            size = meta["size"]
        except FileNotFoundError:
            return [], "none"
        except Exception:
            return [], "none"
        refs = sorted(set(mp.values()))
        out = [size]
        for i in range((size + CH - 1) // CH):
            h = mp.get(i)
            st = self.chunk_state(self.repo / "chunks" / h[:2] / (h + ".chunk.lzo")) if h else None
            want = min(CH, size - i * CH)
            if not st or st[0] != "ok":
                return refs, "bad"
            dg = st[1].cut(want)
            if dg is None:
                return refs, "bad"
            out.append(dg)
        return refs, out

    def mapping(self, uuid):
        meta = json.loads((self.repo / uuid).read_text())
        return {int(k): v for k, v in meta["mapping"].items()}

    def rev_files(self):
        return sorted(f for f in self.repo.glob("*.rev") if not f.is_symlink())

    def load_rev(self, f):
        return yaml.safe_load(f.read_text(encoding="utf-8"))

    def observe(self):
        revs = {}
        for f in self.rev_files():
            try:
                m = self.load_rev(f)
                u = m["uuid"]
                ts = m["timestamp"]
                if isinstance(ts, str):
                    ts = datetime.datetime.fromisoformat(ts)
                refs, cont = self.decode_rev(u)
                revs[u] = dict(
                    t=int((ts - BASE).total_seconds()),
                    tags=sorted(map(str, m.get("tags", []))),
                    orig=sorted(map(str, m.get("orig_tags", []))),
                    server=m.get("server", ""),
                    trust=m.get("trust", "trusted"),
                    clean="duration" in m.get("stats", {}),
                    refs=refs, cont=cont, file=f.name == u + ".rev",
                )
            except Exception as e:
                revs[f.name] = dict(t=0, tags=[], orig=[], server="?", trust="?",
                                    clean=False, refs=[], cont="broken:" + type(e).__name__,
                                    file=False)
        store = {}
        ids = {}
        for h, f in self.chunk_files().items():
            s = self.chunk_state(f)
            if s is None:
                s = ("bad", None, None)
            store[h] = s[0]
            ids[h] = s[2]
        q = self.repo / "quarantine"
        reports = sorted(f.name for f in q.glob("*.report")) if q.is_dir() else []
        self.ids = ids
        return dict(
            img=self.image_sum() if self.kind == "rbd" and (self.rbd / "images/test/img/head").exists()
            else (content(self.srcfile.read_bytes()) if self.kind == "file" and self.srcfile.exists() else []),
            snaps=self.snaps(), other=self.snaps("other"), revs=revs, store=store,
            pend=(self.repo / ".purge_pending").exists(), reports=reports,
        )

    def piece_chunks(self, uuid):
        return self.mapping(uuid)


class Piece:
    """A decoded chunk; digests of prefixes (kept small)."""

    __slots__ = ("z", "n", "cache")

    def __init__(self, data):
        import zlib

        self.n = len(data)
        self.z = zlib.compress(data, 1)
        self.cache = {}

    def cut(self, n):
        if n > self.n:
            return None
        if n not in self.cache:
            import zlib

            self.cache[n] = digest(zlib.decompress(self.z)[:n])
        return self.cache[n]


def content(data: bytes):
    return [len(data)] + [digest(data[i:i + CH]) for i in range(0, len(data), CH)]


def _drop(*a):
    import structlog

    raise structlog.DropEvent


def rc_of(res):
    """Exit code of a child running a command; 70+ for anything unusual."""
    if res[0] == "exit":
        c = res[1]
        if c is None:
            return 0
        return c if isinstance(c, int) else 1
    if res[0] == "ok":
        return 0
    if res[0] == "exc":
        return 71
    if res[0] == "killed":
        return 72
    return 73


def rand_piece(rng, n=CH, small=True):
    """Compressible but distinctive data."""
    k = rng.randrange(6)
    if k == 0:
        return bytes(n)
    b = bytearray(rng.choice(b"abcdefgh".decode()).encode() * n)
    for _ in range(rng.randrange(1, 4)):
        o = rng.randrange(0, max(1, n))
        d = rng.randbytes(rng.choice([1, 7, 512, 4096]))
        b[o:o + len(d)] = d
    return bytes(b[:n])
