"""Requests against the real API of a real daemon, recorded for ApiTrace.tla."""
import asyncio
import datetime
import fcntl
import json
import logging
import os
import random
import re
import socket
import uuid as uuidlib
from urllib.parse import quote

import revs
from common import mkscratch, rmtree
from dmn import Server, address, file_source, run_loop
from revs import UTC, revdict, write_rev
from world import digest, set_now

NOW = datetime.datetime(2030, 1, 7, 12, 0, 0, tzinfo=UTC)
START = NOW - datetime.timedelta(days=300)
SCHED = {"default": {"daily": {"interval": "1d", "keep": 2}}}
TAGS = ["daily", "manual:a", "manual:ü b", "old"]
TOKENS = {"tok-cli": "cli", "tok-b": "b", "Tok cli ü"[:7]: "c", "x" * 40: "d", "tok-cli2": "cli", "tok-b2": "b"}
NAMES = ["vm01", "vm-2.x", "dead1", "a b", "ü", "tags"]
ODD = ["nope", "..", ".", "vm01/../dead1", "link", "plainfile", "VM01", "dead1 ", "", "vm01%00", "base", "~cli"]
ROUTES = {"status": ("GET", "/v1/status"), "reload": ("POST", "/v1/reload"), "jobs": ("GET", "/v1/jobs"),
          "run": ("POST", "/v1/jobs/{n}/run"), "backups": ("GET", "/v1/backups"),
          "purge": ("POST", "/v1/backups/{n}/purge"), "touch": ("POST", "/v1/backups/{n}/touch"),
          "revs": ("GET", "/v1/backups/{n}/revs"), "tags": ("PUT", "/v1/backups/{n}/revs/{s}/tags")}
OTHER = ["/", "/v1", "/v2/status", "/v1/status/", "/v1/jobs/vm01", "/v1/backups/dead1", "/v1/backups/dead1/revs/last", "/v1/backups//purge",
         "/v1//jobs", "/v1/jobs//run", "/V1/jobs", "/v1/reload/x", "/static/../v1/jobs", "/v1/backups/dead1/revs//tags", "*"]
METHODS = ["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE"]


class Conn:
    """a client's connection, kept open for further requests"""

    def __init__(self, addr, port):
        self.at, self.rw, self.used = (addr, port), None, 0

    def close(self):
        if self.rw:
            self.rw[1].close()
        self.rw, self.used = None, 0

    async def request(self, method, target, headers, body=b"", last=True):
        """(status, body); 0: nobody there"""
        try:
            if not self.rw or self.rw[0].at_eof() or self.rw[1].is_closing():
                self.close()
                self.rw = await asyncio.open_connection(*self.at)
            r, w = self.rw
            head = [f"{method} {target} HTTP/1.1", "Host: x", f"Content-Length: {len(body)}"] + ["Connection: close"] * last
            head += [f"{k}: {v}" for k, v in headers]
            w.write("\r\n".join(head).encode() + b"\r\n\r\n" + body)
            await w.drain()
            code, data, more = await asyncio.wait_for(self.answer(r, method), 30)
        except (OSError, EOFError, asyncio.TimeoutError, ValueError, IndexError):
            again = self.used
            self.close()
            if again:   # the server need not keep it
                return await self.request(method, target, headers, body, last)
            return 0, b""
        self.used += 1
        if last or not more:
            self.close()
        return code, data

    async def answer(self, r, method):
        h = (await r.readuntil(b"\r\n\r\n")).lower()
        code = int(h.split()[1])
        fields = dict(x.split(b":", 1) for x in h.split(b"\r\n")[1:] if b":" in x)
        out = b""
        if method == "HEAD" or code in (204, 304) or code < 200:
            pass
        elif b"chunked" in fields.get(b"transfer-encoding", b""):
            while True:
                n = int(await r.readuntil(b"\r\n"), 16)
                out += (await r.readexactly(n + 2))[:n]
                if not n:
                    break
        elif b"content-length" in fields:
            out = await r.readexactly(int(fields[b"content-length"]))
        else:
            out = await r.read()
        return code, out, h.startswith(b"http/1.1") and b"close" not in fields.get(b"connection", b"")


class ApiWorld:
    def __init__(self, d, rng):
        self.d, self.rng = d, rng
        self.cases, self.shown = [], []
        self.gen = 0
        self.gone = set()
        self.lock = None
        self.clock = START

    async def start(self):
        rng = self.rng
        self.s = Server(self.d, 0, schedules=SCHED, jobs={})
        self.conn = Conn(self.s.addr, self.s.port)
        self.base = self.s.base
        self.configure()
        for n in NAMES:
            p = self.base / n
            p.mkdir()
            for _ in range(rng.choice([0, 1, 2, 4])):
                self.new_rev(p)
        (self.base / "plainfile").write_text("x")
        (self.d / "outside").mkdir()
        self.new_rev(self.d / "outside")
        (self.base / "link").symlink_to(self.d / "outside")
        d = self.s.create()
        d.terminate = lambda: None  # would end us
        d.loop = asyncio.get_running_loop()
        d._read_config()
        d._apply_config()
        self.applied()
        self.quiet()
        self.servers = []
        real = d.loop.create_server

        async def create_server(*a, **kw):
            self.servers.append(await real(*a, **kw))
            return self.servers[-1]

        d.loop.create_server = create_server
        d.api_server()
        for _ in range(100):
            try:
                _, w = await asyncio.open_connection(self.s.addr, self.s.port)
                w.close()
                break
            except OSError:
                await asyncio.sleep(0.02)

    def quiet(self):
        for j in self.s.daemon.jobs.values():
            j.stop()

    def configure(self):
        rng = self.rng
        self.gen += 1
        c = self.s.conf
        c["jobs"] = {n: {"source": file_source(self.d / "x"), "schedule": "default"} for n in NAMES if rng.random() < 0.4}
        toks = dict(rng.sample(list(TOKENS.items()), rng.choice([0, 1, 2, 3])))
        if rng.random() < 0.3:
            # clients get other tokens
            toks = {"tok-" + v + "2" * (not k.endswith("2")): v for k, v in c["api"]["tokens"].items() if v in ("cli", "b")}
        if rng.random() < 0.9 and "cli" not in toks.values():
            toks["tok-cli"] = "cli"
        c["api"]["tokens"] = toks
        c["api"]["cli-default"]["gen"] = self.gen
        self.s.write()

    def applied(self):
        """the configuration in the file is the current one"""
        self.jobs = set(self.s.conf["jobs"])
        self.tokens = set(self.s.conf["api"]["tokens"])
        self.gone = set()
        self.dead = {p.name for p in self.base.iterdir() if p.is_dir() and not p.is_symlink()} - self.jobs

    def new_rev(self, repo):
        rng = self.rng
        self.clock += datetime.timedelta(seconds=rng.choice([1, 3600, 86400]))
        u = uuidlib.UUID(int=rng.getrandbits(128)).hex[:22]
        server = rng.choice(["", "", "", "p1"])
        tags = rng.sample(TAGS, rng.choice([1, 1, 2]))
        write_rev(repo, revdict(u, self.clock, tags=tags, orig=tags if server else [], server=server,
                                trust=rng.choice(["trusted", "verified", "distrusted"]), duration=rng.choice([1.5, 900, None]) if not server else 2.5))
        return u

    def history(self, n):
        ms = sorted(revs.read_revs(self.base / n).values(), key=lambda m: m["timestamp"])
        return [dict(u=m["uuid"], t=int((m["timestamp"] - START).total_seconds()), tags=sorted(m.get("tags") or []), trust=m["trust"], server=m.get("server", ""),
                     clean="duration" in m.get("stats", {})) for m in ms]

    def state(self):
        dirs = [p.name for p in self.base.iterdir() if p.is_dir() and not p.is_symlink()]
        self.dead -= {n for n in self.dead if n not in dirs}
        d = self.s.daemon
        return dict(tokens=sorted(self.tokens), jobs=sorted(self.jobs), dead=sorted(self.dead),
                    run=sorted(n for n, j in d.jobs.items() if j.run_immediately.is_set()),
                    reloads=d.api_cli_default.get("gen", 0),
                    repos={n: dict(h=self.history(n), marker=(self.base / n / ".purge_pending").exists(), locked=n == self.locked()) for n in dirs})

    def locked(self):
        return self.lock[0] if self.lock else ""

    def rest(self):
        """everything the model does not speak of, and directory times"""
        res, times = {}, {}
        for p in [*self.base.rglob("*"), *(self.d / "outside").rglob("*"), self.d / "outside", self.base]:
            st = p.lstat()
            if p.parent == self.base and p.is_dir() and not p.is_symlink():
                times[p.name] = st.st_mtime_ns
            elif p == self.base:
                times[""] = st.st_mtime_ns
            elif p.name in (".purge_pending", ".backup", ".purge", ".source") or p.suffix == ".rev" and p.parent.parent == self.base or p.name == "backy.log":
                continue
            else:
                res[str(p)] = (st.st_mode, st.st_mtime_ns if not p.is_symlink() else 0, digest(p.read_bytes()) if p.is_file() else "")
        # what a revision holds besides its tags
        for n in NAMES:
            if (self.base / n).is_dir():
                for u, m in revs.read_revs(self.base / n).items():
                    res[n + "/" + u] = str((m["timestamp"], m["stats"], sorted(m.get("orig_tags") or [])))
        return res, times

    # -- requests
    def header(self, good=None):
        """(headers, the token as it counts)"""
        rng = self.rng
        if good is None:
            good = rng.random() < 0.75
        if good:
            t = rng.choice(sorted(self.tokens) or ["tok-cli"])
            return [("Authorization", "Bearer " + t)], t
        tok = rng.choice(sorted(TOKENS))
        return rng.choice(self.bad(tok))

    def bad(self, tok):
        return [([], ""), ([("Authorization", "")], ""), ([("Authorization", tok)], ""), ([("Authorization", "Bearer")], ""),
                ([("Authorization", "Bearer ")], ""), ([("Authorization", "Basic " + tok)], ""), ([("Authorization", "Bearer" + tok)], ""),
                ([("Authorization", "Bearer " + tok)], tok), ([("Authorization", "Bearer " + tok[:-1])], tok[:-1]),
                ([("Authorization", "Bearer " + tok + "x")], tok + "x"), ([("Authorization", "Bearer " + tok.upper())], tok.upper()),
                ([("Authorization", "Bearer  " + tok)], " " + tok), ([("Authorization", "Bearer " + TOKENS[tok])], TOKENS[tok]),
                ([("Authorization", "Bearer None")], "None"), ([("Authorization", "Bearer *")], "*"),
                ([("X-Authorization", "Bearer " + tok)], ""), ([("taskid", tok)], ""),
                ([("Authorization", "Digest x"), ("Cookie", "token=" + tok)], "")]

    def spec(self, name):
        """(text, tokens, simple)"""
        rng = self.rng
        h = self.history(name) if name in NAMES and (self.base / name).is_dir() else []
        w = lambda v: dict(k="word", v=v, n=0)
        sym = lambda v: dict(k="sym", v=v, n=0)
        ids = [x["u"] for x in h] or ["zzzz"]
        z = rng.random()
        if z < 0.55:
            u = rng.choice(ids)
            return u, [dict(k="id", v=u, n=0)], True
        if z < 0.62:
            return "unknownid", [dict(k="id", v="unknownid", n=0)], True
        if z < 0.7:
            n = rng.choice([0, 1, 2, 7])
            return str(n), [dict(k="num", v="", n=n)], True
        if z < 0.78:
            v = rng.choice(["first", "last", "latest"])
            return v, [w(v)], True
        if z < 0.88:
            v = rng.choice(["all", "clean", "local", "remote"])
            return v, [w(v)], False
        if z < 0.92:
            t = rng.choice(TAGS)
            return "tag:" + t, [dict(k="tag", v=t, n=0)], False
        if z < 0.96:
            a, b = rng.choice(ids), rng.choice(ids)
            return f"{a}, {b}", [dict(k="id", v=a, n=0), sym(","), dict(k="id", v=b, n=0)], False
        t = rng.choice(TAGS)
        return f"not(tag:{t})", [w("not"), sym("("), dict(k="tag", v=t, n=0), sym(")")], False

    def body(self, name, toks):
        rng = self.rng
        h = self.history(name) if name in NAMES and (self.base / name).is_dir() else []
        old = rng.sample(TAGS, rng.choice([0, 1, 2]))
        if h and rng.random() < 0.75:
            x = [r for r in h if r["u"] == toks[0]["v"]] or [rng.choice(h)]
            old = list(x[0]["tags"])
            rng.shuffle(old)
        new = rng.choice([[], [], rng.sample(TAGS, rng.choice([1, 2])), ["new"]])
        if rng.random() < 0.12:
            return rng.choice([b"", b"{", b"{}", b"[]", json.dumps({"old_tags": old}).encode(), json.dumps({"new_tags": new}).encode(),
                               json.dumps({"old_tags": None, "new_tags": new}).encode(), json.dumps({"old": old, "new": new}).encode(),
                               json.dumps({"old_tags": old, "new_tags": None}).encode(),
                               b"\xff\xfe"]), dict(ok=False, old=[], new=[])
        return json.dumps({"old_tags": old, "new_tags": new}, ensure_ascii=rng.random() < 0.5).encode(), dict(ok=True, old=old, new=new)

    async def request(self, route=None, method=None, auth=None, name=None):
        rng = self.rng
        if route is None:
            route = rng.choice(["tags"] * 6 + ["purge", "purge", "touch", "touch", "revs", "revs", "run", "status", "jobs", "backups", "reload", "other"])
        if name is None:
            name = rng.choice(NAMES) if rng.random() < 0.85 else rng.choice(ODD)
        headers, tok = self.header() if auth is None else auth
        r = dict(auth=tok, route=route, name=name, t=[], simple=True, body=dict(ok=False, old=[], new=[]), autoremove=False,
                 filter=sorted(self.jobs), onlyclean=False)
        query, body = "", b""
        if route == "other":
            r["method"] = method or rng.choice(METHODS)
            target = rng.choice(OTHER)
            if target == "*":
                r["method"] = "OPTIONS"
        else:
            m, path = ROUTES[route]
            r["method"] = method or (m if rng.random() < 0.95 else rng.choice(METHODS))
            enc = quote(name, safe="")
            if route in ("run", "purge", "touch", "revs", "tags") and name in ("", "..", "."):
                enc = name.replace(".", "%2e")
            spec = ""
            if route == "tags":
                spec, r["t"], r["simple"] = self.spec(name)
                body, r["body"] = self.body(name, r["t"])
                query, r["autoremove"] = rng.choice([("", False), ("?autoremove=1", True), ("?autoremove=0", False), ("?autoremove=", False)])
            elif route == "revs":
                query, r["onlyclean"] = rng.choice([("", False), ("?only_clean=1", True), ("?only_clean=0", False)])
            elif route == "status" and rng.random() < 0.6:
                f = rng.choice(["", "^vm01$", "vm", "^a", "ü", "d.ad", "none", "[0-9]", "^(tags|a b)$"])
                query = "?filter=" + quote(f)
                r["filter"] = sorted(n for n in self.jobs if re.search(f, n))
            target = path.format(n=enc, s=quote(spec, safe="")) + query
            if route in ("run", "purge", "touch", "revs", "tags") and name == "":
                r["route"] = "other"
            if name == "..":
                # may also be resolved
                r["name"] = ".."
        s0 = self.state()
        rest0, t0 = self.rest()
        if rng.random() < 0.1:
            self.conn.close()
        keep = rng.random() < 0.75
        conn = self.conn if keep else Conn(self.s.addr, self.s.port)
        old = conn.used
        code, data = await conn.request(r["method"], target, headers, body, not keep)
        if r["route"] == "reload" and r["method"] == "POST" and tok in self.tokens:
            self.quiet()
            self.applied()
        s1 = self.state()
        if r["route"] == "reload" and r["method"] == "POST" and tok in set(s0["tokens"]):
            # the model speaks of one reload; what follows shows what became of it
            s1["reloads"] = s0["reloads"] + (1 if s1["reloads"] == self.gen and code == 204 else 0)
            s1.update(tokens=s0["tokens"], jobs=s0["jobs"], dead=s0["dead"], run=s0["run"])
            names = set(s0["repos"])
            s1["repos"] = {n: v for n, v in s1["repos"].items() if n in names}
        rest1, t1 = self.rest()
        for k in set(rest0) ^ set(rest1):
            if k.split("/")[0] in NAMES:
                # whether it may disappear is the model's business
                rest0.pop(k, 0), rest1.pop(k, 0)
        out = []
        if code == 200 and r["method"] != "HEAD":
            try:
                out = json.loads(data)
                if r["route"] in ("status",):
                    out = [x["job"] for x in out]
                elif r["route"] == "jobs":
                    out = [x["name"] for x in out]
                elif r["route"] == "revs":
                    out = [x["uuid"] for x in out]
            except (ValueError, TypeError, KeyError):
                out = ["unreadable"]
        self.cases.append(dict(s0=s0, r=r, s1=s1, code=code, body=out, touched=sorted(n for n in t1 if t1[n] != t0.get(n)),
                               other=rest0 != rest1, gone=sorted(self.gone)))
        self.shown.append(dict(connection_used=old, request=f"{r['method']} {target}", headers=headers, body=body.decode(errors="replace"), code=code,
                               changed=sorted(k for k in set(rest0) | set(rest1) if rest0.get(k) != rest1.get(k))[:3]))

    def between(self):
        rng = self.rng
        if self.lock:
            self.lock[1].close()
            self.lock = None
        z = rng.random()
        if z < 0.12:
            n = rng.choice([x for x in NAMES if (self.base / x).is_dir()])
            f = open(self.base / n / ".backup", "a+b")
            fcntl.flock(f, rng.choice([fcntl.LOCK_EX, fcntl.LOCK_SH]) | fcntl.LOCK_NB)
            self.lock = n, f
        elif z < 0.3:
            n = rng.choice([x for x in NAMES if (self.base / x).is_dir()])
            self.new_rev(self.base / n)
        elif z < 0.36:
            self.configure()
        elif z < 0.39 and self.dead:
            # removed by the garbage collection of old repositories
            n = rng.choice(sorted(self.dead))
            if n in NAMES:
                rmtree(self.base / n)
                self.dead.discard(n)
                self.gone.add(n)
        elif z < 0.45:
            for n in self.dead:
                (self.base / n / ".purge_pending").unlink(missing_ok=True)
            for j in self.s.daemon.jobs.values():
                j.run_immediately.clear()
        if len([x for x in NAMES if (self.base / x).is_dir()]) < 3:
            for n in NAMES:
                if not (self.base / n).is_dir() and n not in self.gone:
                    (self.base / n).unlink(missing_ok=True)
                    (self.base / n).mkdir()
        # times must be told apart
        for p in self.base.iterdir():
            if p.is_dir() and not p.is_symlink():
                os.utime(p, (1.7e9, 1.7e9))
        os.utime(self.base, (1.7e9, 1.7e9))

    async def stop(self):
        if self.lock:
            self.lock[1].close()
        self.quiet()
        self.conn.close()
        for s in self.servers:
            s.close()
        await asyncio.sleep(0)


async def mixed(w, n):
    await w.start()
    for _ in range(n):
        w.between()
        if w.rng.random() < 0.06:
            await w.request("reload", "POST")
        else:
            await w.request()
    await w.stop()


async def product(w, part, parts):
    """every kind of credentials on every route with every method"""
    await w.start()
    w.lock = None
    every = [(ro, me, k) for ro in [*ROUTES, "other"] for me in METHODS for k in range(len(w.bad("tok-b")))]
    for ro, me, k in every[part::parts]:
        if ro == "other" and me == "TRACE":
            continue
        for p in w.base.iterdir():
            if p.is_dir() and not p.is_symlink():
                os.utime(p, (1.7e9, 1.7e9))
        os.utime(w.base, (1.7e9, 1.7e9))
        await w.request(ro, me, w.bad(w.rng.choice(sorted(TOKENS)))[k])
    await w.stop()


async def storm(w, n):
    """reloads at any moment, while the API follows earlier ones"""
    rng = w.rng
    await w.start()
    addrs = [w.s.addr] + [w.s.addr.rsplit(".", 1)[0] + f".{(int(w.s.addr.rsplit('.', 1)[1]) + 85 * k) % 256}" for k in (1, 2)]
    busy = socket.socket()
    busy.bind((addrs[2], w.s.port))
    busy.listen(1)
    try:
        for _ in range(n):
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                w.configure()
                a = [addrs[0]] + [x for x in [addrs[1], addrs[2], "192.0.2.1"] if rng.random() < 0.35]
                w.s.conf["api"]["addrs"] = ", ".join(a)
                w.s.write()
                w.s.daemon.reload()
                w.quiet()
                w.applied()
                for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 8])):
                    await asyncio.sleep(0)
            await asyncio.sleep(0.02)
            for t in sorted(TOKENS):
                await w.request("jobs", "GET", ([("Authorization", "Bearer " + t)], t), rng.choice(NAMES))
    finally:
        busy.close()
    await w.stop()


def job(kind, seed, n):
    logging.disable(logging.CRITICAL)
    set_now(NOW)
    d = mkscratch("api")
    try:
        w = ApiWorld(d, random.Random(seed))
        if kind == "mixed":
            run_loop(mixed(w, n))
        elif kind == "storm":
            run_loop(storm(w, n))
        else:
            run_loop(product(w, n, seed % 97))
        return w.cases, w.shown
    finally:
        rmtree(d)
