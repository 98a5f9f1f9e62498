"""Real daemons in this process, on loopback addresses of their own."""
import asyncio
import os
from pathlib import Path

import yaml

from world import nolog


def address(k=0):
    """one per process, so that workers never collide"""
    n = os.getpid() % (1 << 22)
    return f"127.{64 + (n >> 16)}.{(n >> 8) & 255}.{n & 255}", 6023 + k


class Server:
    def __init__(self, root, k=0, *, schedules, jobs, name=None, worker_limit=1, callback=None,
                 tokens=None, peers=None):
        self.k = k
        self.name = name or f"srv{k}"
        self.root = Path(root) / self.name
        self.base = self.root / "base"
        self.base.mkdir(parents=True)
        self.file = self.root / "config"
        self.addr, self.port = address(k)
        self.url = f"http://{self.addr}:{self.port}"
        self.conf = {
            "global": {"base-dir": str(self.base), "worker-limit": worker_limit},
            "api": {"addrs": self.addr, "port": self.port, "tokens": tokens or {"tok-cli": "cli"},
                    "cli-default": {"token": "tok-cli"}},
            "peers": peers or {},
            "schedules": schedules,
            "jobs": jobs,
        }
        if callback:
            self.conf["global"]["backup-completed-callback"] = str(callback)
        self.write()
        self.daemon = None
        self.api = None

    def write(self):
        self.file.write_text(yaml.safe_dump(self.conf))

    def create(self):
        from backy.daemon import BackyDaemon

        self.daemon = BackyDaemon(self.file, nolog())
        return self.daemon

    async def idle(self):
        """All configured jobs exist, none is running."""
        d = self.create()
        d.loop = asyncio.get_running_loop()
        d._read_config()
        d._apply_config()
        for j in d.jobs.values():
            j.stop()
        await asyncio.sleep(0)
        return d

    async def serve(self):
        from backy.daemon.api import BackyAPI

        self.api = BackyAPI(self.daemon, nolog())
        await self.api.start()
        for i in range(50):
            try:
                await self.api.reconfigure(self.daemon.api_tokens, self.daemon.api_addrs, self.daemon.api_port)
                return
            except OSError:
                await asyncio.sleep(0.05)
        raise RuntimeError("cannot listen")

    async def stop(self):
        if self.daemon:
            for j in self.daemon.jobs.values():
                j.stop()
        if self.api:
            await self.api.stop()
        await asyncio.sleep(0)


def file_source(path):
    return {"type": "file", "filename": str(path)}


def run_loop(coro, timeout=120):
    """A fresh event loop; cancels whatever is left."""

    async def main():
        me = asyncio.current_task()
        try:
            return await asyncio.wait_for(coro, timeout)
        finally:
            left = [t for t in asyncio.all_tasks() if t is not me]
            for t in left:
                t.cancel()
            await asyncio.gather(*left, return_exceptions=True)

    loop = asyncio.new_event_loop()
    loop.set_exception_handler(lambda *a: None)
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(main())
    finally:
        loop.run_until_complete(loop.shutdown_asyncgens())
        loop.close()
        asyncio.set_event_loop(None)
