"""Revision metadata files written and read independently of backy."""
import datetime
import os

import yaml

UTC = datetime.timezone.utc


def revdict(uuid, ts, *, tags=(), orig=(), trust="trusted", server="", duration=1.5, written=0, stats=None):
    st = {"bytes_written": written}
    if duration is not None:
        st["duration"] = duration
    return dict(uuid=uuid, timestamp=ts, parent="", stats=st if stats is None else stats,
                trust=trust, tags=list(tags), orig_tags=list(orig), server=server)


def write_rev(repo, r):
    p = repo / (r["uuid"] + ".rev")
    with open(p, "w", encoding="utf-8") as f:
        f.write("# Please use the `backy tags` subcommand to edit tags\n")
        yaml.safe_dump(r, f)
    os.chmod(p, 0o440)
    return p


def read_rev(p):
    with open(p, encoding="utf-8") as f:
        m = yaml.safe_load(f)
    ts = m["timestamp"]
    if isinstance(ts, str):
        ts = datetime.datetime.fromisoformat(ts)
    m["timestamp"] = ts
    return m


def read_revs(repo):
    return {m["uuid"]: m for m in (read_rev(p) for p in sorted(repo.glob("*.rev")) if not p.is_symlink())}


def make_repo(path, schedule, source=None):
    path.mkdir(parents=True, exist_ok=True)
    (path / "config").write_text(yaml.safe_dump(dict(
        path=str(path), source=source or {"type": "file", "filename": str(path / "src.bin")},
        schedule=schedule)))
    return path
