"""Run a function in a child that is nobody: it can reach nothing but its own scratch files."""
import json
import os
import shutil
import tempfile
from pathlib import Path

from common import scratch_root

UID = 65534


def open_scratch():
    """let nobody pass through (not list) the scratch directory"""
    p = scratch_root()
    os.chmod(p, 0o711)


def own_dir(prefix="u"):
    p = Path(tempfile.mkdtemp(prefix=prefix + "-", dir=scratch_root()))
    os.chmod(p, 0o755)
    os.chown(p, UID, UID)
    return p


def call(fn, *args):
    """fn(*args) -> JSON-able, as nobody"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                os.setgroups([])
                os.setresgid(UID, UID, UID)
                os.setresuid(UID, UID, UID)
                assert os.geteuid() == UID
                os.umask(0o022)
                res = ["ok", fn(*args)]
            except BaseException as e:
                import traceback

                res = ["err", traceback.format_exc()[-3000:]]
            with os.fdopen(w, "w") as f:
                json.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    st, v = json.loads(s) if s else ("err", "child died")
    if st != "ok":
        raise RuntimeError(v)
    return v


def wipe(p):
    p = Path(p).absolute()
    assert scratch_root() in p.parents
    for d, ds, fs in os.walk(p):
        for x in ds:
            q = os.path.join(d, x)
            if not os.path.islink(q):
                os.chmod(q, 0o755)
    shutil.rmtree(p, ignore_errors=True)
