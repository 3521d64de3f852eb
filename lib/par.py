"""fork-based parallel map"""
import multiprocessing as mp, os
_f = None


def _call(x):
    return _f(x)


def pmap(f, items, n=None):
    global _f
    items = list(items)
    n = n or min(8, os.cpu_count() or 1)
    if n <= 1 or len(items) <= 1:
        return [f(x) for x in items]
    _f = f
    ctx = mp.get_context('fork')
    with ctx.Pool(n) as pool:
        return pool.map(_call, items, chunksize=1)
