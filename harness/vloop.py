"""An event loop whose time is virtual: it passes only when nothing is left to do.

Everything the real code awaits (sleeps, timeouts, deadlines) is real code; only
the clock is ours.  `backy.utils.now` and `time.time` follow the same clock.
"""
import asyncio
import datetime
import selectors
import time

import world

EPOCH = datetime.datetime(2030, 1, 7, 12, 0, 0, tzinfo=datetime.timezone.utc)
_time = time.time


class Stuck(Exception):
    pass


class _Selector(selectors.DefaultSelector):
    owner = None

    def select(self, timeout=None):
        o = self.owner
        o.spins = o.spins + 1 if o.spun == o._v else 0
        o.spun = o._v
        if o.spins > 1500 and o.on_stuck:
            o.on_stuck()
        ev = super().select(0)
        if ev or (timeout is not None and timeout <= 0):
            return ev
        return self.owner._idle(super().select, timeout)


class VLoop(asyncio.SelectorEventLoop):
    """`on_idle` is called whenever nothing can happen without time passing."""

    def __init__(self, start=EPOCH, patch_time=False):
        sel = _Selector()
        sel.owner = self
        self.start = start
        self._v = 0.0
        self._jobs = 0
        self.on_idle = None
        # called if time does not pass any more
        self.on_stuck = None
        self.spins, self.spun = 0, 0.0
        self.jumps = 0
        self.quiet = 3
        super().__init__(sel)
        self._clock_resolution = 1e-6
        self.set_exception_handler(lambda *a: None)
        world.set_now(self.now)
        self.patch_time = patch_time
        if patch_time:
            time.time = lambda: self.now().timestamp()

    def time(self):
        return self._v

    def now(self):
        return self.start + datetime.timedelta(microseconds=round(self._v * 1e6))

    def run_in_executor(self, executor, func, *args):
        f = super().run_in_executor(executor, func, *args)
        self._jobs += 1

        def done(_):
            self._jobs -= 1

        f.add_done_callback(done)
        return f

    def _idle(self, select, timeout):
        """nothing ready; timeout None: no timer"""
        for i in range(self.quiet):
            ev = select(0.0004)
            if ev:
                return ev
        if self._jobs:
            return select(0.01)
        if self.on_idle:
            before = len(self._ready)
            n = len(self._scheduled)
            self.on_idle()
            if len(self._ready) != before or len(self._scheduled) != n:
                return []
        if timeout is None:
            self.waits = getattr(self, "waits", 0) + 1
            if self.waits > 2000:
                raise Stuck()
            return select(0.005)
        self.waits = 0
        self.jumps += 1
        if self._scheduled:
            when = self._scheduled[0]._when
            self._v = max(self._v, when)
        return []

    def finish(self):
        if self.patch_time:
            time.time = _time
        try:
            self.run_until_complete(self.shutdown_asyncgens())
            self.run_until_complete(self.shutdown_default_executor())
        except BaseException:
            pass
        self.close()
        asyncio.set_event_loop(None)


def run(main, start=EPOCH, patch_time=False):
    """main(loop) -> coroutine; returns its result. Whatever is left is cancelled."""
    loop = VLoop(start, patch_time)
    asyncio.set_event_loop(loop)

    async def guard():
        me = asyncio.current_task()
        try:
            return await main(loop)
        finally:
            for i in range(5):
                left = [t for t in asyncio.all_tasks() if t is not me]
                if not left:
                    break
                for t in left:
                    t.cancel()
                await asyncio.gather(*left, return_exceptions=True)

    try:
        return loop.run_until_complete(guard())
    finally:
        loop.finish()
