"""Worker processes for the harness (each runs jobs one after another)."""
import json
import multiprocessing
import os
import time
import traceback
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait

from common import NCPU, CheckError

_CTX = multiprocessing.get_context("fork")


def _guard(fn, a):
    try:
        return ("ok", fn(*a))
    except BaseException as e:
        return ("err", f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2500:])


def pmap(fn, jobs, *, procs=None, budget=None, start=None):
    """[(job, status, result)] for an iterable of argument tuples.

    With a budget (seconds) no further job is started once it is used up.
    """
    procs = procs or NCPU
    t0 = start or time.time()
    res = []
    it = iter(jobs)
    from world import preload

    preload()
    with ProcessPoolExecutor(procs, mp_context=_CTX) as ex:
        pend = {}
        more = True
        while more or pend:
            while more and len(pend) < procs + 2:
                if budget is not None and time.time() - t0 > budget:
                    more = False
                    break
                try:
                    a = next(it)
                except StopIteration:
                    more = False
                    break
                pend[ex.submit(_guard, fn, a)] = a
            if not pend:
                break
            done, _ = wait(pend, return_when=FIRST_COMPLETED)
            for f in done:
                a = pend.pop(f)
                try:
                    st, r = f.result()
                except Exception as e:
                    raise CheckError(f"worker died: {e}")
                res.append((a, st, r))
    return res
