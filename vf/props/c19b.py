"""C19, bounded part: print and read back on the real code."""
import random
from mpmath import mpf
from .. import replay as R, oracle as O, simpdiff, bnd as BND_
NM = ["x", "y", "z"]
NUMS = [0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 0.5, -0.5, 10.0, -3.0, 1e-7, 1.5e10, -2.5, 0.1, 1e20, 123456.789, -7.0]
def tree(r, d):
    if d <= 0 or r.random() < 0.12:
        return ("s", r.choice(NM + ["pi", "e", "x_1"])) if r.random() < 0.6 else ("n", r.choice(NUMS))
    s = lambda: tree(r, d - 1); q = r.random()
    if q < 0.2: return ("+", [s() for _ in range(r.choice([2, 2, 3, 4]))])
    if q < 0.42: return ("*", [s() for _ in range(r.choice([2, 2, 3, 4]))] if r.random() < 0.6 else [("n", r.choice([-1.0, -2.0, -0.5, 3.0]))] + [s() for _ in range(r.choice([1, 2, 3]))])
    if q < 0.57: return ("/", s(), s())
    if q < 0.74: return ("^", s(), s() if r.random() < 0.5 else ("n", r.choice([2.0, 3.0, -1.0, -2.0, 0.5, -0.5])))
    if q < 0.84: return ("f", r.choice(["sin", "exp", "sqrt", "ln", "abs", "cosh"]), [s()])
    if q < 0.88: return ("f", r.choice(["f", "g"]), [s() for _ in range(r.choice([1, 2, 3]))])
    if q < 0.90: return ("f", "atan2", [s(), s()])
    if q < 0.93: return ("d", ("f", "f", [("s", "x")] if r.random() < 0.5 else [("+", [("s", "x"), ("s", "y")]), ("s", "y")]), r.choice(["x", "y"]), r.choice([1, 1, 2]))
    k = sorted(r.sample(range(6), r.choice([1, 2, 3]))); return ("P", s(), [(p, r.choice([1.0, -1.0, 2.0, -3.0, 0.5])) for p in k])
def finite(t): return not any(u[0] == "n" and (u[1] != u[1] or abs(u[1]) == float("inf")) or u[0] == "P" and any(c != c or abs(c) == float("inf") for _, c in u[2]) for u in O.nodes(t))
def check(t, cmd, r, st):
    s = R.call(f"{cmd} 2 f g 1 x_1 {R.enc(t)}", 10).split(" ", 1); text = R.unesc(s[0])
    raw = R.dec(R.call("raw " + R.enc(t))) if cmd == "rt" else t
    if not finite(raw) or any(u[0] == "d" and u[1][0] != "f" for u in O.nodes(raw)) or any(u[0] == "f" and u[1] == "" for u in O.nodes(raw)): return None
    if s[1].startswith("ERR"): return ("unreadable", f"prints as {text!r}, which does not parse: {R.unesc(s[1])[:150]}")
    got = R.dec(s[1]); st["read"] += 1
    if got == raw: return None
    a, b = O.names(raw), O.names(got)
    if b - a: return ("names", f"prints as {text!r}, read back as {R.show(got)}")
    n = 0
    for _ in range(4):
        e = O.env(r, sorted(a), r.random() < 0.6); e = {k: v for k, v in e.items() if k not in O.CONST}
        x, y = O.ev(O.term(raw), e), O.ev(O.term(got), e)
        if x is None: continue
        if y is None: n += 1; continue
        st["points"] += 1
        if not O.same(x, y) and not simpdiff.illcond(raw, e, abs(x.v - y.v)) and not simpdiff.tiny_const(raw): return ("value", f"prints as {text!r}, read back as {R.show(got)}; at { {k: float(v) for k, v in e.items()} } {float(x.v)} became {float(y.v)}")
    return None
def case(r, st):
    t = tree(r, r.choice([1, 2, 2, 3, 3, 4])); seed = r.randrange(1 << 30)
    if O.size(t) > 40: return None
    def f(c):
        try: return check(c, "rt", random.Random(seed), st)
        except R.RPanic as e: return ("panic", f"printing or reading back panics: {e}")
    w = f(t)
    if not w: return None
    t = BND_.shrunk(t, lambda c: (f(c) or [0])[0] == w[0]); w = f(t) or w
    return f"{w[0]}:{R.show(t)[:150]}", f"{R.show(t)[:300]} {w[1]}", {"kind": "roundtrip", "input": R.enc(t)}
def bounded(C):
    BND_.run(C, "roundtrip", case, 20000, 300000, "random raw trees of at most 40 nodes (numbers of any sign and size, powers, quotients, polynomials, calls, derivatives of unknown functions), up to 4 points", per=100)
