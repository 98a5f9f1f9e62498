"""`asyncio.create_subprocess_exec` answered by us: real source programs run in
forked children (not a shell), everything else by a function of the check."""
import asyncio
import asyncio.subprocess as asp

from procs import Child
from world import patch_child, source_class


class Process:
    """What the daemon sees of a started program."""
    _next = 10_000_000

    def __init__(self, work):
        """work(self) -> coroutine giving the exit status"""
        Process._next += 1
        self.pid = Process._next
        self.returncode = None
        self.stdin_data = None
        self.terminated = False
        self._task = asyncio.get_running_loop().create_task(work(self))

    async def wait(self):
        rc = await asyncio.shield(self._task)
        self.returncode = rc
        return rc

    async def communicate(self, input=None):
        self.stdin_data = input
        self.got_input.set() if hasattr(self, "got_input") else None
        rc = await asyncio.shield(self._task)
        self.returncode = rc
        return getattr(self, "stdout", b""), getattr(self, "stderr", b"")

    def terminate(self):
        if self.returncode is not None or self._task.done():
            raise ProcessLookupError()
        self.terminated = True
        self._task.cancel()

    kill = terminate


class Exec:
    """Replaces asyncio.create_subprocess_exec while active."""

    def __init__(self, start):
        """start(args) -> work coroutine function (or raises)"""
        self.start = start

    async def __call__(self, *args, **kw):
        await asyncio.sleep(0)
        return Process(self.start([str(a) for a in args]))

    def __enter__(self):
        self.real = asyncio.create_subprocess_exec, asp.create_subprocess_exec
        asyncio.create_subprocess_exec = asp.create_subprocess_exec = self
        return self

    def __exit__(self, *a):
        asyncio.create_subprocess_exec, asp.create_subprocess_exec = self.real


def source_child(args, now, home, points=None):
    name = args[0].rsplit("/", 1)[-1]

    def body():
        patch_child(now, home)
        raise SystemExit(source_class(name).main(name, *args[1:]))

    return Child(body, points=points)


def status(res):
    if res[0] == "ok":
        return 0
    if res[0] == "exit":
        return 0 if res[1] is None else res[1] if isinstance(res[1], int) else 1
    return 1 if res[0] == "exc" else -9
