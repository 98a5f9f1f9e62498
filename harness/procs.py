"""Run pieces of the real code in forked processes, observed at each effect.

A child runs a function of backy.  Every file-system effect, lock operation and
started program inside the watched directory is an event ("point"); the line
of backy code executed next is a second point.  The parent can count the
points, kill the child at point n, or pause it there.
"""
import errno
import fcntl
import json
import mmap
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

REPO_SRC = os.environ.get("VERIF_REPO", "/repo") + "/src/backy/"
W_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
EFFECTS = {
    "os.rename": 2, "os.remove": 1, "os.rmdir": 1, "os.mkdir": 1,
    "os.chmod": 1, "os.link": 2, "os.symlink": 2, "os.truncate": 1,
    "os.utime": 1,
}


class Points:
    """Counts points in this process (and forked sub-processes)."""

    def __init__(self, watch, *, kill_at=None, pause_at=(), out=None, inp=None,
                 record=False, lines=True, popen=True, reads=False,
                 every_line=False, fail_at=None, pause_after=None):
        self.watch = str(watch)
        self.shm = mmap.mmap(-1, 64)
        self.kill_at = kill_at
        self.pause_at = set(pause_at)
        self.out, self.inp = out, inp
        self.record = record
        self.lines = lines
        self.popen = popen
        self.reads = reads
        self.every_line = every_line
        self.fail_at = fail_at
        # (n, k): k lines of backy after the n-th effect (k: one or several numbers)
        self.pause_after = pause_after
        self.armed = False
        self.busy = False
        self.killgroup = True
        self.fdnames = {}

    def count(self):
        return struct.unpack("Q", self.shm[:8])[0]

    def hit(self, label):
        n = self.count() + 1
        self.shm[:8] = struct.pack("Q", n)
        if self.record and self.out is not None:
            os.write(self.out, (json.dumps(["p", n, label]) + "\n").encode())
        if n == self.kill_at:
            if self.killgroup:
                os.killpg(os.getpgrp(), signal.SIGKILL)
            os._exit(137)
        if n == self.fail_at:
            raise OSError(errno.ENOSPC, "no space left on device")
        if self.pause_at and (n in self.pause_at or "all" in self.pause_at):
            os.write(self.out, (json.dumps(["paused", n, label]) + "\n").encode())
            os.read(self.inp, 1)

    def _rel(self, p):
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if isinstance(p, os.PathLike):
            p = os.fspath(p)
        if not isinstance(p, str):
            return None
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        if p.startswith(self.watch + "/"):
            r = p[len(self.watch) + 1:]
            if r.endswith("backy.log"):
                return None
            return r
        return None

    def audit(self, ev, args):
        if self.busy:
            return
        if ev == "open":
            path, mode, flags = args
            if not isinstance(flags, int):
                return
            if not flags & W_FLAGS:
                if not self.reads:
                    return
                r = self._rel(path)
                if r is None or os.path.isdir(path):
                    return
                label = "read " + r
            else:
                r = self._rel(path)
                if r is None:
                    return
                label = "open " + r
        elif ev in EFFECTS:
            rs = [self._rel(a) for a in args[: EFFECTS[ev]]]
            if all(r is None for r in rs):
                return
            if ev == "os.mkdir" and os.path.lexists(os.path.join(self.watch, rs[0])):
                return
            label = ev + " " + " ".join(str(r) for r in rs)
        elif ev == "fcntl.flock":
            fd, op = args
            try:
                r = self._rel(os.readlink(f"/proc/self/fd/{fd}"))
            except OSError:
                r = None
            if r is None:
                return
            label = f"flock {r} {op}"
        elif ev == "subprocess.Popen":
            if not self.popen:
                return
            label = "run " + " ".join(map(str, args[1]))[-80:]
        else:
            return
        self.busy = True
        try:
            if self.pause_after:
                self.shm[8:16] = struct.pack("Q", struct.unpack("Q", self.shm[8:16])[0] + 1)
            self.hit(label)
            self.armed = True
        finally:
            self.busy = False

    def line(self, code, lineno):
        if not code.co_filename.startswith(REPO_SRC):
            return sys.monitoring.DISABLE
        if self.pause_after and not self.busy:
            n, k = self.pause_after
            if struct.unpack("Q", self.shm[8:16])[0] >= n:
                d = struct.unpack("Q", self.shm[16:24])[0] + 1
                self.shm[16:24] = struct.pack("Q", d)
                if d == k if isinstance(k, int) else d in k:
                    self.busy = True
                    os.write(self.out, (json.dumps(["paused", self.count(), "line"]) + "\n").encode())
                    os.read(self.inp, 1)
                    self.busy = False
        if (self.armed or self.every_line) and not self.busy:
            self.armed = False
            self.busy = True
            try:
                self.hit("after")
            finally:
                self.busy = False

    def install(self):
        sys.addaudithook(self.audit)
        if self.lines:
            m = sys.monitoring
            m.use_tool_id(3, "points")
            m.register_callback(3, m.events.LINE, self.line)
            m.set_events(3, m.events.LINE)


class Child:
    """A forked process running fn(); its result comes back pickled."""

    def __init__(self, fn, *, points=None, stdout=None, stderr=None, setsid=True):
        self.rr, rw = os.pipe()
        self.er, ew = os.pipe()
        ir, self.iw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            rc = 1
            try:
                os.close(self.rr)
                os.close(self.er)
                os.close(self.iw)
                if setsid:
                    os.setpgid(0, 0)
                dn = os.open(stdout or os.devnull, os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o600)
                os.dup2(dn, 1)
                os.dup2(os.open(stderr or os.devnull, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600), 2)
                os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
                if points:
                    points.out, points.inp = ew, ir
                    points.install()
                try:
                    res = ("ok", fn())
                except SystemExit as e:
                    res = ("exit", e.code)
                except BaseException as e:
                    if points:
                        points.busy = True
                    res = ("exc", type(e).__name__, str(e)[:300],
                           traceback.format_exc()[-1500:])
                if points:
                    points.busy = True
                sys.stdout.flush()
                data = pickle.dumps((res, points.count() if points else 0))
                with os.fdopen(rw, "wb") as f:
                    f.write(data)
                rc = 0
            except BaseException:
                pass
            finally:
                os._exit(rc)
        if setsid:
            try:
                os.setpgid(self.pid, self.pid)
            except OSError:
                pass
        os.close(rw)
        os.close(ew)
        os.close(ir)
        self.buf = b""
        self.events = []
        self.res = None
        self.done = False
        self.data = b""

    def _read_events(self, timeout):
        """Poll; returns 'paused', 'done' or None on timeout."""
        end = time.time() + timeout
        while True:
            while b"\n" in self.buf:
                l, self.buf = self.buf.split(b"\n", 1)
                e = json.loads(l)
                self.events.append(e)
                if e[0] == "paused":
                    return "paused"
            fds = [f for f in (self.er, self.rr) if f is not None]
            if not fds:
                return "done"
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select(fds, [], [], left)
            for f in r:
                d = os.read(f, 65536)
                if f == self.er:
                    if not d:
                        os.close(self.er)
                        self.er = None
                    self.buf += d
                else:
                    if not d:
                        os.close(self.rr)
                        self.rr = None
                    self.data += d
            if self.rr is None and b"\n" not in self.buf:
                # result complete (or process dead)
                return "done"

    def wait(self, timeout=60):
        """'paused' | 'done' | None"""
        return self._read_events(timeout)

    def resume(self):
        os.write(self.iw, b"x")

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass

    def finish(self, timeout=120):
        """Result (status, ...); ('killed', sig) when it died; kills on timeout."""
        s = self._read_events(timeout)
        while s == "paused":
            self.resume()
            s = self._read_events(timeout)
        if s is None:
            self.kill()
        _, st = os.waitpid(self.pid, 0)
        # nothing of its process group may survive
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        for f in ("er", "rr"):
            if getattr(self, f) is not None:
                os.close(getattr(self, f))
                setattr(self, f, None)
        os.close(self.iw)
        self.points = 0
        if s is None:
            return ("timeout",)
        if self.data:
            res, self.points = pickle.loads(self.data)
            return res
        return ("killed", os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st))


def call(fn, timeout=120, **kw):
    c = Child(fn, **kw)
    return c.finish(timeout)


def blocked(child):
    """Is a process of this child waiting for a file lock?"""
    try:
        txt = open("/proc/locks").read()
    except OSError:
        return False
    for l in txt.splitlines():
        if "->" in l:
            try:
                pid = int(l.split()[5])
                if pid == child.pid or os.getpgid(pid) == child.pid:
                    return True
            except (ValueError, IndexError, OSError):
                pass
    return False


def settle(child, timeout=30):
    """Run until the child is 'paused', 'done', 'blocked' or 'stuck'."""
    end = time.time() + timeout
    hits = 0
    while time.time() < end:
        s = child.wait(0.02)
        if s:
            return s
        hits = hits + 1 if blocked(child) else 0
        if hits >= 3:
            return "blocked"
    return "stuck"
