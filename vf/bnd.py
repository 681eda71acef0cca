"""Bounded stand-ins on the real code: the shared driver.
case(r, st) -> None or (key, what, replay dict); every case is seeded."""
import random, collections
from . import replay as R, par
_CASE = {}
def _work(a):
    seed, n, nm = a; r = random.Random(seed); st = collections.Counter(); out = []
    for i in range(n):
        st["cases"] += 1
        try: w = _CASE[nm](r, st)
        except R.Timeout: st["timeout"] += 1; continue
        except (ArithmeticError, RecursionError, ValueError) as e: st["exc:" + type(e).__name__] += 1; continue
        if w:
            out.append(w)
            if len(out) >= 3: break
    return out, st
def run(C, nm, case, quick, thorough, bound, per=40, seed=0):
    _CASE[nm] = case
    n = thorough if C.thorough else quick; tot = collections.Counter()
    for out, st in par.run(_work, [((C.seed * 1000003 + seed) * 31 + i * 17, per, nm) for i in range(max(1, n // per))], C):
        tot.update(st)
        for key, what, rep in out: C.violate(key, what, rep)
    C.bounded[nm] = {**tot, "cases": tot["cases"], "bound": bound}
def shrunk(t, fails, budget=150):
    from . import oracle as O
    try: return O.shrink(t, lambda c: bool(fails(c)), budget)
    except Exception: return t
