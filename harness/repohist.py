"""Histories of the real image repository, recorded for RepoTrace.tla."""
import json
import os
import random
import re
import shutil
from pathlib import Path

import yaml

from world import BASE, CH, World, content, digest, rand_piece, rc_of

_POOL = {}


def pool_piece(k):
    """A small set of piece contents (0: zeroes) so that pieces recur."""
    if k not in _POOL:
        r = random.Random(k)
        _POOL[k] = bytes(CH) if k == 0 else rand_piece_(r)
    return _POOL[k]


def rand_piece_(rng):
    b = bytearray(rng.choice("abcdefgh").encode() * CH)
    for _ in range(3):
        o = rng.randrange(0, CH - 5000)
        b[o:o + 600] = rng.randbytes(600)
    return bytes(b)


class Hist:
    def __init__(self, path, *, full=False, schedule=None, seed=0):
        self.w = World(path, full=full, schedule=schedule)
        self.rng = random.Random(seed)
        self.steps = []
        self.names = {}
        self.rnames = {}
        self.cnames = {}
        self.want = {}
        self.full = full
        self.foreign = 0
        self.raw = self.w.observe()
        self.init = self.view(self.raw)
        self.dead = False

    # -- abstraction --------------------------------------------------------
    def rid(self, u):
        if u not in self.rnames:
            self.rnames[u] = f"r{len(self.rnames) + 1}"
        return self.rnames[u]

    def cid(self, c):
        if c not in self.cnames:
            self.cnames[c] = f"c{len(self.cnames) + 1}"
        return self.cnames[c]

    def vrev(self, u, r):
        return dict(
            t=r["t"], tags=r["tags"], orig=r["orig"], server=r["server"],
            trust=r["trust"], clean=r["clean"],
            map=r["cont"] != "none", refs=[self.cid(c) for c in r["refs"]],
            cont=[str(x) for x in r["cont"]] if isinstance(r["cont"], list) else [str(r["cont"])],
        )

    def view(self, o):
        own, foreign = [], list("other/" + x for x in o["other"])
        for s in o["snaps"]:
            if s.startswith("backy-"):
                own.append(self.rid(s[6:]))
            else:
                foreign.append(s)
        return dict(
            revs={self.rid(u): self.vrev(u, r) for u, r in sorted(o["revs"].items())},
            store={self.cid(c): s for c, s in sorted(o["store"].items())},
            snaps=own, foreign=foreign, pend=o["pend"], reports=o["reports"],
        )

    def trace(self):
        return dict(full=self.full, init=self.init, steps=self.steps)

    def step(self, a, desc=""):
        self.raw = self.w.observe()
        self.steps.append(dict(a=a, post=self.view(self.raw), desc=desc))

    def env(self, desc):
        self.step(dict(op="env"), desc)

    # -- state queries ------------------------------------------------------
    def revs(self, **kw):
        """uuids oldest first"""
        res = []
        for u, r in self.raw["revs"].items():
            if all((bool(r[k]) == v if isinstance(v, bool) else r[k] == v)
                   for k, v in kw.items()):
                res.append(u)
        return sorted(res, key=lambda u: self.raw["revs"][u]["t"])

    # -- environment --------------------------------------------------------
    def set_image(self, data, desc="img"):
        self.w.set_image(data)
        self.env(f"{desc} {len(data)}")

    def set_pieces(self, ks, size=None):
        d = b"".join(pool_piece(k) for k in ks)
        self.set_image(d[:size] if size is not None else d, f"img {ks}")

    def damage(self, chunk, how):
        f = self.w.repo / "chunks" / chunk[:2] / (chunk + ".chunk.lzo")
        d = f.read_bytes()
        f.unlink()
        if how == "gone":
            pass
        elif how == "flip":
            import lzo

            f.write_bytes(lzo.compress(b"damaged" + bytes(100)))
        elif how == "bit":
            import lzo

            try:
                x = bytearray(lzo.decompress(d))
            except Exception:
                x = bytearray(b"xy")
            if x:
                x[len(x) // 2] ^= 1
            f.write_bytes(lzo.compress(bytes(x)))
        elif how == "trunc":
            f.write_bytes(d[: len(d) // 2])
        elif how == "empty":
            f.write_bytes(b"")
        elif how == "garbage":
            f.write_bytes(b"\x00" * 50)
        elif how == "loop":
            f.symlink_to(f.name)
        self.env(f"damage {self.cid(chunk)} {how}")

    def unmap_rev(self, u, how):
        f = self.w.repo / u
        if how == "gone":
            f.unlink()
        else:
            f.write_text("garbage")
        self.env(f"mapping of {self.rid(u)} {how}")

    def lose_snap(self, u):
        self.w.rm_snap("backy-" + u)
        self.env(f"snapshot of {self.rid(u)} lost")

    def foreign_snap(self, name=None, image="img"):
        self.foreign += 1
        name = name or self.rng.choice(["manual", "x-backy-", "Backy-", "backy", "daily"]) + f"{self.foreign}"
        self.w.add_snap(name, image)
        self.env(f"foreign snapshot {image} {name}")

    def remote_rev(self, t=None, tags=("daily",), server="srv2", uuid=None, trust="trusted"):
        """As left behind by pulling from a peer."""
        import shortuuid

        u = uuid or shortuuid.uuid()
        ts = self.w.now if t is None else t
        (self.w.repo / f"{u}.rev").write_text(yaml.safe_dump(dict(
            uuid=u, timestamp=ts, parent="", stats={"bytes_written": 0, "duration": 3.5},
            trust=trust, tags=list(tags), orig_tags=list(tags), server=server)))
        self.env(f"pulled {self.rid(u)}")
        return u

    def set_pending(self):
        (self.w.repo / ".purge_pending").touch()
        self.env("purge requested")

    # -- operations ---------------------------------------------------------
    def prepare_backup(self, faults=(), device=None, style=None):
        w = self.w
        w.clear_log()
        w.clear_faults()
        (w.rbd / "difflog").unlink(missing_ok=True)
        style = style or self.rng.choice(["object", "minimal", "zero", "over", "split"])
        w.diffstyle(style, self.rng.randrange(1 << 30))
        for f, v in dict(faults).items():
            w.fault(f, v)
        if device is not None:
            w.fault("device", device)
        return style

    def backup_event(self, rc, *, tags, pre_ids, pre_reports, faults, device, img, t):
        w = self.w
        log = w.log_lines()
        n, kind, base = None, "none", "-"
        for l in log:
            if m := re.match(r"snap create test/img@backy-(\S+)", l):
                n = m.group(1)
            elif m := re.match(r"export test/img@backy-(\S+) -", l):
                kind = "full"
                n = m.group(1)
            elif m := re.match(r"export-diff test/img@(\S+) .*?--from-snap (\S+)", l):
                kind = "diff"
                b = m.group(2)
                base = self.rid(b[6:]) if b.startswith("backy-") else "?" + b
        raw = w.observe()
        if n is None:
            # no snapshot was made: a new revision is one we did not know
            new = [u for u in raw["revs"] if u not in self.raw["revs"]]
            n = new[0] if new else None
        fresh = [c for c, k in w.ids.items() if pre_ids.get(c) != k]
        touched, samp = [], []
        if n in raw["revs"]:
            try:
                mp = w.mapping(n)
            except Exception:
                mp = {}
            npc = (img[0] + CH - 1) // CH if img else 0
            if kind == "full":
                idx = range(npc)
            elif kind == "diff":
                try:
                    idx = [int(x) for x in (w.rbd / "difflog").read_text().split()]
                except OSError:
                    idx = []
            else:
                idx = []
            touched = sorted({self.cid(mp[i]) for i in idx if i in mp})
            if img and img[0]:
                samp = sorted({self.cid(mp[i]) for i in range(max(img[0] // CH, 1)) if i in mp})
        mismatch = "no"
        src = w.image() if img else b""
        if device is not None:
            blocks = range(max(min(len(device), 10 ** 12) // CH, 1))
            if len(device) > len(src):
                mismatch = "always"
            else:
                diff = [device[i * CH:(i + 1) * CH] != src[i * CH:(i + 1) * CH] for i in blocks]
                mismatch = "always" if all(diff) else "maybe" if any(diff) else "no"
        repok = True
        for name in set(raw["reports"]) - set(pre_reports):
            repok = repok and self.report_ok(name, device if device is not None else src, src)
        fs = set(dict(faults)) | ({"device"} if device is not None else set())
        return dict(
            op="backup", rc=rc, n=self.rid(n) if n else "-", t=t, tags=sorted(tags),
            kind=kind, base=base, touched=touched, samp=samp,
            fresh=sorted(self.cid(c) for c in fresh), faults=sorted(fs),
            mismatch=mismatch, repok=repok, img=[str(x) for x in img],
        ), n

    def report_ok(self, name, device, stored):
        q = self.w.repo / "quarantine"
        try:
            r = yaml.safe_load((q / name).read_text())
            o = r["offset"]
            s = (q / "chunks" / r["source_hash"]).read_bytes()
            t = (q / "chunks" / r["target_hash"]).read_bytes()
            import hashlib

            return (
                name == r["uuid"] + ".report" and s != t
                and hashlib.md5(s).hexdigest() == r["source_hash"]
                and hashlib.md5(t).hexdigest() == r["target_hash"]
                and s == device[o:o + CH]
                and stored[o:o + CH].startswith(t)
            )
        except Exception:
            return False

    def backup(self, tags=("daily",), faults=(), device=None, style=None, run=None):
        w = self.w
        style = self.prepare_backup(faults, device, style)
        pre_ids = dict(w.ids)
        pre_reports = self.raw["reports"]
        img = w.image_sum() if (w.rbd / "images/test/img/head").exists() else []
        t = int((w.now - BASE).total_seconds())
        rc = (run or (lambda: w.cli("backup", "-f", ",".join(tags))))()
        a, n = self.backup_event(rc, tags=tags, pre_ids=pre_ids, pre_reports=pre_reports,
                                 faults=faults, device=device, img=img, t=t)
        if n:
            self.want[n] = img
        self.step(a, f"backup {','.join(tags)} {style} {dict(faults) and sorted(dict(faults))} rc={rc}")
        w.clear_faults()
        return n if rc == 0 else None

    def simple(self, op, *args, src=False, **kw):
        rc = (self.w.src if src else self.w.cli)(*args)
        a = dict(op=op, rc=rc, **kw)
        self.step(a, " ".join(map(str, args)) + f" rc={rc}")
        return rc

    def gc(self):
        return self.simple("gc", "gc", src=True)

    def verify(self, u):
        return self.simple("verify", "verify", u, src=True, n=self.rid(u))

    def rm(self, us):
        return self.simple("rm", "rm", "-r", ",".join(us), sel=[self.rid(u) for u in us])

    def distrust(self, us):
        return self.simple("distrust", "distrust", "-r", ",".join(us), sel=[self.rid(u) for u in us])

    def tags(self, act, us, tags, auto=False):
        args = ["tags", "-f"] + (["--autoremove"] if auto else []) + [act, "-r", ",".join(us), ",".join(tags)]
        return self.simple("tags", *args, act=act, sel=[self.rid(u) for u in us],
                           tags=list(tags), auto=auto)

    def expire(self):
        man = sorted({t for r in self.raw["revs"].values() for t in r["tags"] if t.startswith("manual:")})
        return self.simple("expire", "gc", "--expire", "--local", manual=man)

    def restore(self, u, stdout=False):
        w = self.w
        tgt = w.root / "target"
        # there may be another program for this
        ext = self.rng.choice(["none", "none", "none", "ok", "ok", "ok", "fail", "old"])
        back = self.rng.choice([[], [], [], ["--backend", "python"]] + [["--backend", "rust"]] * (self.aligned(u) and ext in ("ok", "fail")))
        w.env["EXTRACT"] = ext
        if stdout:
            rc = w.cli("restore", "-r", u, "rbd", *back, "-")
            out = w.out.read_bytes()
        else:
            tgt.unlink(missing_ok=True)
            k = self.rng.randrange(3)
            if k == 0:
                tgt.write_bytes(b"old" * 100)
            elif k == 1:
                tgt.write_bytes(b"old" * (7 * 1024 * 1024 // 3 * 2))
            rc = w.cli("restore", "-r", u, "rbd", *back, str(tgt))
            out = tgt.read_bytes() if tgt.exists() else b""
        exact = content(out) == self.want.get(u)
        tgt.unlink(missing_ok=True)
        w.env["EXTRACT"] = "none"
        self.step(dict(op="restore", rc=rc, n=self.rid(u), exact=exact, trouble=ext == "fail" and back != ["--backend", "python"]),
                  f"restore {self.rid(u)} stdout={stdout} extract={ext} {back} rc={rc} exact={exact}")

    def aligned(self, u):
        try:
            return json.loads((self.w.repo / u).read_text())["size"] % CH == 0
        except (OSError, ValueError, KeyError):
            return False

    def reports_list(self):
        rc = self.w.cli("reports-list")
        self.step(dict(op="reports-list", rc=rc,
                       listed=[l + ".report" for l in self.w.out.read_text().split()]), "reports-list")

    def reports_delete(self, names=None):
        if names is None:
            sel = self.raw["reports"]
            rc = self.w.cli("reports-delete", "--all-reports")
        else:
            sel = names
            rc = self.w.cli("reports-delete", ",".join(n.removesuffix(".report") for n in names))
        self.step(dict(op="reports-delete", rc=rc, sel=sel), f"reports-delete {names and len(names)}")

    def check(self):
        rc = self.w.cli("check")
        cl = self.revs(clean=True)
        age = int((self.w.now - BASE).total_seconds()) - self.raw["revs"][cl[-1]]["t"] if cl else 0
        self.step(dict(op="check", rc=rc, sla="ok" if age < 86400 * 1.5 else "bad"), f"check rc={rc}")

    # -- random images ------------------------------------------------------
    def mutate_image(self):
        rng = self.rng
        cur = bytearray(self.w.image()) if (self.w.rbd / "images/test/img/head").exists() else bytearray()
        k = rng.randrange(7)
        if not cur or k == 0:
            n = rng.randrange(1, 4)
            cur = bytearray(b"".join(pool_piece(rng.randrange(5)) for _ in range(n)))
        elif k == 1:
            i = rng.randrange(0, (len(cur) + CH - 1) // CH)
            p = pool_piece(rng.randrange(5))
            cur[i * CH:(i + 1) * CH] = p[:len(cur[i * CH:(i + 1) * CH])]
        elif k == 2:
            for _ in range(rng.randrange(1, 4)):
                o = rng.randrange(0, len(cur))
                d = rng.randbytes(rng.choice([1, 511, 512, 8192]))
                cur[o:o + len(d)] = d[:len(cur) - o]
        elif k == 3:
            o = rng.randrange(0, len(cur))
            n = rng.choice([512, 65536, CH, 2 * CH])
            n = min(n, len(cur) - o)
            cur[o:o + n] = bytes(n)
        elif k == 4:
            cur = cur + bytes(rng.choice([512, 65536, CH - 512, CH]))
            if rng.random() < 0.5:
                cur[-300:] = rng.randbytes(300)
        elif k == 5:
            n = rng.choice([512, CH - 512, CH, CH + 512, 2 * CH, 2 * CH + 4096])
            cur = cur[:n]
        else:
            i = rng.randrange(0, (len(cur) + CH - 1) // CH)
            j = rng.randrange(0, (len(cur) + CH - 1) // CH)
            a = bytes(cur[i * CH:(i + 1) * CH])
            b = bytes(cur[j * CH:(j + 1) * CH])
            if len(a) == len(b):
                cur[i * CH:(i + 1) * CH], cur[j * CH:(j + 1) * CH] = b, a
        cur = cur[: 4 * CH]
        self.set_image(bytes(cur), f"img kind {k}")


DAMAGES = ["gone", "flip", "bit", "trunc", "empty", "garbage", "loop"]


def random_history(h: Hist, weights, n):
    """Drive h for n operations chosen by weights {op: weight}."""
    rng = h.rng
    ops, ws = zip(*weights.items())
    if "img" in weights or True:
        h.mutate_image()
        if rng.random() < 0.7:
            h.mutate_image()
    for _ in range(n):
        h.w.tick(rng.choice([61, 3600, 40000, 86400, 3 * 86400]))
        op = rng.choices(ops, ws)[0]
        local = h.revs(server="", clean=True)
        if op == "img":
            h.mutate_image()
        elif op == "backup":
            if rng.random() < 0.6:
                h.mutate_image()
            h.backup(rng.choice([("daily",), ("weekly",), ("daily", "weekly"), ("manual:x",)]))
        elif op == "badbackup":
            f = rng.choice(["info", "snap_create", "map", "export", "diff", "snap_rm", "device", "device"])
            img = h.w.image()
            if f == "device":
                d = bytearray(img)
                for i in range((len(d) + CH - 1) // CH):
                    if rng.random() < 0.6 and d[i * CH:(i + 1) * CH]:
                        o = i * CH + rng.randrange(len(d[i * CH:(i + 1) * CH]))
                        d[o] ^= 0x55
                if rng.random() < 0.15:
                    d += bytes(CH)
                h.backup(device=bytes(d))
            elif f == "export":
                h.backup(faults={f: rng.choice([0, 1, 512, CH, len(img) - 1]) % max(1, len(img))})
            elif f == "diff":
                h.backup(faults={f: b"rbd diff v1\n" + rng.choice([b"", b"s\0\0", b"w" + bytes(3), b"x"])})
            else:
                h.backup(faults={f: ""})
        elif op == "gc":
            if rng.random() < 0.3:
                h.set_pending()
            h.gc()
        elif op == "verify" and local:
            h.verify(rng.choice(local))
        elif op == "rm" and h.revs():
            us = h.revs()
            h.rm(rng.sample(us, rng.randrange(1, min(3, len(us)) + 1)))
        elif op == "distrust" and local:
            h.distrust(rng.sample(local, rng.randrange(1, len(local) + 1)))
        elif op == "tags" and h.revs():
            us = h.revs()
            h.tags(rng.choice(["set", "add", "remove"]), rng.sample(us, rng.randrange(1, len(us) + 1)),
                   rng.choice([("daily",), ("weekly",), ("manual:keep",), ("daily", "manual:keep")]),
                   rng.random() < 0.3)
        elif op == "expire":
            h.expire()
        elif op == "restore" and local:
            h.restore(rng.choice(local), rng.random() < 0.3)
        elif op == "damage" and h.raw["store"]:
            cs = [c for c, s in h.raw["store"].items() if s == "ok"]
            if cs:
                h.damage(rng.choice(sorted(cs)), rng.choice(DAMAGES))
        elif op == "snaplost":
            own = [s[6:] for s in h.w.snaps() if s.startswith("backy-")]
            if own:
                h.lose_snap(rng.choice(own))
        elif op == "foreign":
            h.foreign_snap(image=rng.choice(["img", "img", "other"]))
        elif op == "oldsnap" and local:
            # a snapshot of an older revision is still there
            u = rng.choice(local)
            if h.want.get(u) == h.w.image_sum():
                h.w.add_snap("backy-" + u)
                h.env(f"snapshot of {h.rid(u)} kept")
        elif op == "orphansnap":
            h.w.add_snap(f"backy-orphan{rng.randrange(1000)}")
            h.env("orphaned snapshot")
        elif op == "remote":
            import datetime

            h.remote_rev(t=h.w.now - datetime.timedelta(seconds=rng.choice([1, 50, 90000, -5000])),
                         trust=rng.choice(["trusted", "trusted", "distrusted", "verified"]))
        elif op == "nomap" and local:
            h.unmap_rev(rng.choice(local), rng.choice(["gone", "garbage"]))
        elif op == "crash":
            crash_backup(h)
        elif op == "reports":
            k = rng.randrange(3)
            if k == 0 or not h.raw["reports"]:
                h.reports_list()
            elif k == 1:
                h.reports_delete([rng.choice(h.raw["reports"])])
            else:
                h.reports_delete()
            h.check()
        elif op == "check":
            h.check()


def crash_backup(h: Hist):
    """A backup that is killed at some point (not judged here; see P03)."""
    from procs import Points

    w = h.w
    h.prepare_backup()
    p = Points(w.root, kill_at=h.rng.randrange(1, 90))
    img = w.image_sum()
    pre = set(h.raw["revs"])
    w.call(w.cli_fn("backup", "-f", "daily"), points=p)
    new = [u for u in (f.name[:-4] for f in w.rev_files()) if u not in pre]
    w.clear_faults()
    for u in new:
        h.want[u] = img
    h.steps_crash = True
    # judged by the following steps; the new revision's content is known
    a = dict(op="env")
    h.step(a, "backup killed")
    return new


def spec_history(h: Hist, g):
    """Replay a history generated by TLC from RepoFine."""
    piece = {"a": 1, "b": 2}
    h.set_pieces([piece[x] for x in g["img"]])
    ids = {}
    nb = 0
    for e in g["hist"]:
        h.w.tick(3600)
        k = e["e"]
        u = ids.get(e.get("n"))
        if k == "img":
            h.set_pieces([piece[x] for x in e["c"]])
        elif k == "backup":
            nb += 1
            f = e["fault"]
            n0 = set(h.raw["revs"])
            if f == "":
                n = h.backup()
            elif f == "snap_create":
                n = h.backup(faults={"snap_create": ""})
            else:
                n = h.backup(faults={"export": 100, "diff": b"rbd diff v1\n"})
            ids[f"r{nb}"] = n
        elif k == "gc":
            h.gc()
        elif k == "damage":
            import mmh3

            c = mmh3.hash_bytes(pool_piece(piece[e["c"]])).hex()
            if h.raw["store"].get(c):
                h.damage(c, "gone" if e["how"] == "gone" else h.rng.choice(DAMAGES[1:]))
        elif k == "snaplost" and u and "backy-" + u in h.w.snaps():
            h.lose_snap(u)
        elif k == "verify" and u in h.raw["revs"]:
            h.verify(u)
        elif k == "rm" and u in h.raw["revs"]:
            h.rm([u])
        elif k == "distrust" and u in h.raw["revs"]:
            h.distrust([u])
        elif k == "crash":
            pass
    for u in h.revs(clean=True, server=""):
        h.restore(u)
