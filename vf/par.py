"""fork-based worker pool; every worker has its own replay server"""
import multiprocessing as mp_, os, time
from . import replay as R
def _init():
    R._srv = None
def run(fn, tasks, C, procs=8, reserve=60.0, chunk=1, recycle=None):
    """yield results in task order of completion until the budget of check C runs out; returns number not done in C.notes"""
    tasks = list(tasks)
    if not tasks: return
    R.binary()
    ctx = mp_.get_context("fork"); n = 0
    pool = ctx.Pool(procs, initializer=_init, maxtasksperchild=recycle)
    try:
        it = pool.imap_unordered(fn, tasks, chunksize=chunk)
        for _ in tasks:
            try: r = it.next(timeout=max(2.0, C.left() - reserve))
            except mp_.TimeoutError:
                C.notes.append(f"time budget: {len(tasks) - n} of {len(tasks)} work items of {getattr(fn, '__name__', fn)} not run"); break
            n += 1
            yield r
    finally:
        pool.terminate(); pool.join()
