"""Independent meaning of expression trees (mpmath, 30 digits) and a generator of trees.

The oracle is used (1) to confirm a counterexample of a failed obligation on the real code and
(2) for the bounded comparisons that stand in for functions the verifier does not reach.
"""
import math, random
from fractions import Fraction
import mpmath
from mpmath import mpf
from . import term as tm
from .term import T, num, mk, var, fn

CONST = {"pi": tm.PI, "PI": tm.PI, "Pi": tm.PI, "e": tm.E1, "E": tm.E1}
ALIAS = {"sign": "signum", "sgn": "signum", "ynm": "spherical_harmonic", "log1p": "ln1p"}
KNOWN = set("sin cos tan cot sec csc asin acos atan acot asec acsc sinh cosh tanh coth sech csch asinh acosh atanh acoth asech acsch exp ln log10 log2 sqrt cbrt abs signum erf erfc gamma lgamma digamma trigamma tetragamma lambertw elliptic_k elliptic_e zeta sinc exp_polar floor ceil round log atan2 beta besselj bessely besseli besselk polygamma zeta_deriv hermite assoc_legendre spherical_harmonic".split())

def ufun(name, args):
    """a fixed smooth function standing for an unknown one"""
    h = sum((i + 1) * ord(c) for i, c in enumerate(name)) % 89
    u = num(Fraction(h + 3, 40)); s = num(Fraction(h % 13 + 2, 9))
    for i, a in enumerate(args):
        u = tm.add(u, tm.mul(num(Fraction((h * (i + 3)) % 17 + 5, 13)), a))
        s = tm.add(s, tm.mul(num(Fraction((h * (i + 7)) % 11 + 1, 10)), tm.mul(a, a)))
    return tm.add(fn("sin", u), tm.mul(num(Fraction(1, 5)), s))
def numterm(x):
    if x != x: return tm.NAN
    if math.isinf(x): return tm.INF if x > 0 else tm.NINF
    return num(Fraction(x))
class Bad(Exception): pass
def term(t, ufs=None, bind=None, memo=None):
    """denotation of a tree; bind: name -> T"""
    k = t[0]
    g = lambda x: term(x, ufs, bind)
    if k == "n": return numterm(t[1])
    if k == "s":
        if bind and t[1] in bind: return bind[t[1]]
        return CONST.get(t[1]) or var(t[1])
    if k == "+": return tm.addn([g(x) for x in t[1]])
    if k == "*": return tm.muln([g(x) for x in t[1]])
    if k == "/": return mk("div", g(t[1]), g(t[2]))
    if k == "^": return mk("pow", g(t[1]), g(t[2]))
    if k == "f":
        n = ALIAS.get(t[1], t[1]); a = [g(x) for x in t[2]]
        if ufs and n in ufs: return ufs[n](*a)
        if n == "log" and len(a) == 1: return fn("ln", *a)
        if n in KNOWN: return fn(n, *a)
        return ufun(n, a)
    if k == "d":
        r = g(t[1])
        for _ in range(t[3]): r = diff(r, t[2])
        return r
    if k == "P":
        b = g(t[1]); r = tm.ZERO
        for p, c in t[2]: r = tm.add(r, tm.mul(numterm(c), mk("pow", b, num(p)) if p else tm.ONE))
        return r
    raise Bad(k)
def diff(t, v):
    x = var(v)
    return tm.D(t, lambda y: tm.ONE if y is x else tm.ZERO)
class Val:
    __slots__ = ("v", "scale", "small")
    def __init__(self, v, s, m=1): self.v = v; self.scale = s; self.small = m
def ev(t, env):
    """t: T, env: name -> number.  None when undefined over the reals"""
    e = {var(k): mpf(v) for k, v in env.items()}
    memo = {}
    try: v = tm.neval(t, e, memo)
    except (tm.NumUndef, OverflowError, ValueError, ZeroDivisionError, mpmath.libmp.NoConvergence, RecursionError): return None
    except (TypeError, AttributeError): return None
    s = mpf(1); m = mpf(1)
    for x in memo.values():
        try:
            if abs(x) > s: s = abs(x)
            if x and abs(x) < m: m = abs(x)
        except Exception: pass
    return Val(v, s, m)
def same(a, b, tol=1e-8):
    return abs(a.v - b.v) <= mpf(tol) * (1 + min(a.scale, b.scale) * mpf(0.001) + abs(a.v) + abs(b.v)) or \
        abs(a.v - b.v) <= mpf(10) ** -13 * max(a.scale, b.scale)
# ------------------------------------------------------------------ queries
def nodes(t):
    yield t
    k = t[0]
    for c in children(t): yield from nodes(c)
def children(t):
    k = t[0]
    if k in "+*": return list(t[1])
    if k in "/^": return [t[1], t[2]]
    if k == "f": return list(t[2])
    if k in "dP": return [t[1]]
    return []
def names(t, bound=()):
    out = set()
    for x in nodes(t):
        if x[0] == "s" and x[1] not in CONST: out.add(x[1])
        if x[0] == "d": out.add(x[2])
    return out
def size(t): return sum(1 for _ in nodes(t))
POSF = {"ln", "log", "log10", "log2", "sqrt", "cbrt", "abs", "signum", "sign", "sgn"}
INV = {"asin", "acos", "atan", "acot", "asec", "acsc", "asinh", "acosh", "atanh", "acoth", "asech", "acsch", "atan2"}
TRIG = {"sin", "cos", "tan", "cot", "sec", "csc", "sinh", "cosh", "tanh", "coth", "sech", "csch"}
def principal_ok(t):
    """no inverse function applied to something containing a direct one (rewritten on principal ranges only)"""
    for x in nodes(t):
        if x[0] == "f" and x[1] in INV and any(y[0] == "f" and y[1] in TRIG for a in x[2] for y in nodes(a)): return False
    return True
def matched_positive(t, env):
    """the parts that power, root, logarithm and absolute-value rewrites match are positive"""
    def need(u):
        """u and everything under it through arithmetic is positive, sign of literals aside"""
        if u[0] == "n": return True
        v = ev(term(u), env)
        if v is None or v.v == 0: return False
        if u[0] in "*": return all(need(x) for x in u[1])
        if u[0] == "+": return v.v > 0 and all(need(x) for x in u[1])
        if v.v < 0: return False
        if u[0] == "/": return need(u[1]) and need(u[2])
        if u[0] == "^": return need(u[1])
        if u[0] == "P": return need(u[1])
        if u[0] == "f" and u[1] in POSF: return all(need(x) for x in u[2])
        return True
    for x in nodes(t):
        if x[0] == "^":
            if not need(x[1]): return False
        if x[0] == "f" and x[1] in POSF:
            for a in x[2]:
                v = ev(term(a), env)
                if v is None or v.v <= 0 or not need(a): return False
    return True
# ------------------------------------------------------------------ generation
NUMS = [0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 4.0, 0.5, -0.5, 5.0, 6.0, -3.0, 1.5, 2.5, 8.0, 9.0, 0.25, 10.0, 7.0, -4.0, 12.0, 0.1, 1 / 3]
F1 = "sin cos tan cot sec csc sinh cosh tanh coth sech csch exp ln log10 log2 sqrt cbrt abs signum asin acos atan acot asec acsc asinh acosh atanh acoth asech acsch sinc".split()
F1W = [6, 6, 4, 2, 2, 2, 4, 4, 3, 1, 1, 1, 6, 6, 2, 2, 5, 3, 4, 2] + [1] * 13
SPEC1 = "erf erfc gamma digamma trigamma lambertw elliptic_k elliptic_e zeta exp_polar floor ceil round".split()
class Gen:
    def __init__(self, rnd, names=("x", "y", "z"), consts=True, ufs=("f", "g"), special=True, poly=True, deriv=False, div=True, powvar=True):
        self.r = rnd; self.names = names; self.consts = consts; self.ufs = ufs; self.special = special; self.poly = poly; self.deriv = deriv; self.powvar = powvar
    def leaf(self):
        r = self.r
        x = r.random()
        if x < 0.62: return ("s", r.choice(self.names))
        if x < 0.66 and self.consts: return ("s", r.choice(["pi", "e"]))
        return ("n", r.choice(NUMS))
    def tree(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.12: return self.leaf()
        x = r.random(); g = lambda: self.tree(d - 1)
        if x < 0.22: return ("+", [g() for _ in range(r.choice([2, 2, 2, 3, 3, 4]))])
        if x < 0.46: return ("*", [g() for _ in range(r.choice([2, 2, 2, 3, 3, 4]))])
        if x < 0.58: return ("/", g(), g())
        if x < 0.72:
            y = r.random()
            if y < 0.75 or not self.powvar: e = ("n", r.choice([2.0, 3.0, -1.0, 0.5, 4.0, -2.0, 1.5, -0.5, 1.0, 0.0, 5.0, 6.0, -3.0]))
            elif y < 0.85: e = ("/", ("n", 1.0), ("n", r.choice([2.0, 3.0, 4.0])))
            else: e = self.tree(min(d - 1, 1))
            return ("^", g(), e)
        if x < 0.76 and self.poly:
            k = sorted(r.sample(range(0, 6), r.choice([2, 2, 3])))
            b = ("s", r.choice(self.names)) if r.random() < 0.6 else ("f", r.choice(["sin", "cos", "exp", "ln"]), [("s", r.choice(self.names))])
            return ("P", b, [(p, r.choice([1.0, 2.0, -1.0, 3.0, -2.0, 0.5, 4.0])) for p in k])
        if x < 0.79 and self.ufs:
            n = r.choice(self.ufs)
            return ("f", n, [g() for _ in range(1 if n == "f" else 2)])
        if x < 0.82 and self.special:
            y = r.random()
            if y < 0.6: return ("f", r.choice(SPEC1), [g()])
            n = r.choice(["besselj", "besseli", "log", "atan2", "beta", "hermite", "polygamma"])
            if n in ("besselj", "besseli", "hermite", "polygamma"): return ("f", n, [("n", float(r.choice([0, 1, 2, 3]))), g()])
            if n == "log": return ("f", n, [("n", r.choice([2.0, 3.0, 10.0, 0.5])), g()])
            return ("f", n, [g(), g()])
        if x < 0.825 and self.deriv: return ("d", self.tree(d - 1), r.choice(self.names), r.choice([1, 1, 2]))
        return ("f", r.choices(F1, F1W)[0], [g()])
def env(rnd, names, pos=True):
    e = {}
    for n in names:
        x = rnd.choice([0.3, 0.6, 0.9, 1.3, 1.8, 2.4, 3.3]) * (1 + rnd.randrange(-50, 50) / 997)
        if not pos and rnd.random() < 0.5: x = -x
        e[n] = mpf(x)
    return e
def shrink(t, bad, budget=200):
    """greedy structural shrinking of a failing tree"""
    n = 0
    while True:
        for c in smaller(t):
            n += 1
            if n > budget: return t
            try:
                if bad(c): t = c; break
            except Exception: pass
        else: return t
def smaller(t):
    for c in children(t): yield c
    k = t[0]
    if k in "+*":
        if len(t[1]) > 2:
            for i in range(len(t[1])): yield (k, t[1][:i] + t[1][i + 1:])
        for i, c in enumerate(t[1]):
            for s in smaller(c): yield (k, t[1][:i] + [s] + t[1][i + 1:])
            if c[0] not in "ns": yield (k, t[1][:i] + [("s", "x")] + t[1][i + 1:])
    elif k in "/^":
        for s in smaller(t[1]): yield (k, s, t[2])
        for s in smaller(t[2]): yield (k, t[1], s)
        if t[1][0] not in "ns": yield (k, ("s", "x"), t[2])
        if t[2][0] not in "ns": yield (k, t[1], ("s", "x"))
    elif k == "f":
        for i, c in enumerate(t[2]):
            for s in smaller(c): yield (k, t[1], t[2][:i] + [s] + t[2][i + 1:])
            if c[0] not in "ns": yield (k, t[1], t[2][:i] + [("s", "x")] + t[2][i + 1:])
    elif k == "d":
        for s in smaller(t[1]): yield (k, s, t[2], t[3])
    elif k == "P":
        if len(t[2]) > 1:
            for i in range(len(t[2])): yield (k, t[1], t[2][:i] + t[2][i + 1:])
        for s in smaller(t[1]): yield (k, s, t[2])
def equal_on(ta, tb, envs, tol=1e-8, need=None):
    """compare two terms on points: (checked, witness)"""
    n = 0
    for e in envs:
        a = ev(ta, e)
        if a is None: continue
        b = ev(tb, e)
        if b is None: continue
        n += 1
        if not same(a, b, tol): return n, (e, a.v, b.v)
        if need and n >= need: break
    return n, None
