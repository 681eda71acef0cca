"""Bounded stand-in for the simplifier as a whole: random expressions through the real simplifier
(both modes) compared with the 30-digit oracle."""
import random, collections, math
import mpmath
from mpmath import mpf
from . import term as tm
from . import replay as R, oracle as O, par

TRIG = "sin cos tan cot sec csc sinh cosh tanh coth sech csch".split()
ITRIG = "asin acos atan acot asec acsc asinh acosh atanh acoth asech acsch".split()
ALG = "sqrt cbrt abs signum exp ln log10 log2".split()
class G2(O.Gen):
    """biased towards what the rules of one property match"""
    def __init__(self, rnd, flavour, **k):
        super().__init__(rnd, **k); self.fl = flavour; self.pool = []
    def tree(self, d):
        r = self.r
        if self.pool and r.random() < 0.22: return r.choice(self.pool)        # repeated subexpressions: like terms, common factors
        if d > 0 and r.random() < 0.30:
            t = self.motif(d)
            if t: return t
        t = super().tree(d)
        if O.size(t) <= 7 and t[0] not in "ns" and len(self.pool) < 6: self.pool.append(t)
        return t
    def motif(self, d):
        r = self.r; g = lambda: self.tree(min(d - 1, 1)); N = lambda *v: ("n", float(r.choice(v)))
        if self.fl == "trig":
            x = r.random(); a = g(); f = r.choice(TRIG)
            if x < 0.18: return ("+", [("^", ("f", r.choice(TRIG), [a]), N(2)), ("*", [N(1, -1, 2), ("^", ("f", r.choice(TRIG), [a]), N(2))])])
            if x < 0.28: return ("+", [N(1, -1), ("*", [N(1, -1), ("^", ("f", f, [a]), N(2))])])
            if x < 0.38: return ("*", [N(2, 1, -2, 0.5, 4), ("f", f, [a]), ("f", r.choice(TRIG), [a])])
            if x < 0.48: return ("/", ("f", f, [a]), ("f", r.choice(TRIG), [a]))
            if x < 0.54: return ("/", N(1, 2, -1), ("f", f, [a]))
            if x < 0.68:
                k = ("/", ("*", [N(1, -1, 2, 3, 5), ("s", "pi")]), N(1, 2, 3, 4, 6))
                s = r.choice([a, ("*", [("n", -1.0), a]), ("*", [N(2, 3), a])])
                return ("f", f, [r.choice([("+", [k, s]), ("+", [s, k]), k, ("+", [s, ("*", [N(2, 4, -2, 1, 3), ("s", "pi")])]), ("+", [("s", "pi"), s])])])
            if x < 0.74: return ("f", f, [("*", [N(-1, -2, 2, 3), a])])
            if x < 0.80: return ("f", f, [("f", r.choice(ITRIG), [a])])
            if x < 0.86: return ("+", [("*", [N(3, -3, 4, -4, 1), ("f", f, [a])]), ("*", [N(4, -4, 3, -3), ("^", ("f", f, [a]), N(3))])])
            if x < 0.92:
                e = lambda s: ("f", "exp", [("*", [("n", s), a])]) if r.random() < 0.7 else ("^", ("s", "e"), ("*", [("n", s), a]))
                p = lambda: ("+", [e(1.0), ("*", [N(1, -1), e(-1.0)])])
                return r.choice([("/", p(), N(2)), ("/", N(2), p()), ("/", p(), p()), ("*", [N(0.5), p()])])
            if x < 0.96: return ("+", [("^", ("f", f, [a]), N(4)), ("*", [N(-1, 1), ("^", ("f", r.choice(TRIG), [a]), N(4))])])
            return ("+", [("*", [("f", r.choice(TRIG), [a]), ("f", r.choice(TRIG), [g()])]), ("*", [N(1, -1), ("f", r.choice(TRIG), [g()]), ("f", r.choice(TRIG), [a])])])
        x = r.random(); a = g(); b = g()
        if x < 0.12: return ("+", [("*", [N(1, 2, 3, -1, 4), a]), ("*", [N(1, 2, -2, 5, -3), a]), b])
        if x < 0.24: return ("*", [("^", a, N(1, 2, 3, -1, 0.5, -2)), ("^", a, N(1, 2, -1, 0.5, 1.5)), b])
        if x < 0.34: return ("/", ("*", [a, N(2, 3, 4, 6), b]), ("*", [a, N(2, 3, 4, 9)]))
        if x < 0.42: return ("/", ("^", a, N(2, 3, 4, 0.5)), ("^", a, N(1, 2, 3, 5, 1.5)))
        if x < 0.48: return ("^", ("^", a, N(2, 3, 4, 0.5, -1)), r.choice([N(2, 3, 0.5, -1, 1.5), ("/", N(1), N(2, 3, 4)), b]))
        if x < 0.54: return ("^", ("*", [a, b, N(4, 9, 2, 1)]), r.choice([N(2, 3, 0.5), ("/", N(1), N(2, 3)), a]))
        if x < 0.60: return ("f", r.choice(["sqrt", "cbrt"]), [r.choice([("^", a, N(2, 3, 4, 6)), ("*", [("^", a, N(2, 4)), b]), ("*", [N(4, 9, 8), a])])])
        if x < 0.68: return r.choice([("f", "exp", [("f", "ln", [a])]), ("f", "ln", [("f", "exp", [a])]), ("f", "ln", [("^", a, N(2, 3, 0.5, -1))]), ("+", [("f", "ln", [a]), ("*", [N(1, -1), ("f", "ln", [b])])]), ("^", ("s", "e"), ("f", "ln", [a])), ("*", [("f", "exp", [a]), ("f", "exp", [b])]), ("^", ("s", "e"), ("*", [N(2, -1), ("f", "ln", [a])])), ("f", r.choice(["log2", "log10"]), [("^", N(2, 10), a)])])
        if x < 0.74: return r.choice([("f", "abs", [("f", "abs", [a])]), ("f", "abs", [("*", [N(-1, -2, 3), a])]), ("f", "abs", [("^", a, N(2, 4, 3))]), ("*", [("f", "abs", [a]), ("f", "abs", [b])]), ("^", ("f", "abs", [a]), N(2, 4, 3)), ("f", "signum", [("f", "abs", [a])]), ("*", [("f", "signum", [a]), ("f", "abs", [a])]), ("f", "signum", [N(-2, 0, 3)])])
        if x < 0.82: return ("+", [("^", a, N(2)), ("*", [N(-1, -4, -9, 1), ("^", b, N(2))])])
        if x < 0.88: return ("+", [("^", a, N(2)), ("*", [N(2, -2, 4, 6), a, b]), ("*", [N(1, 1, 4, 9), ("^", b, N(2))])])
        if x < 0.92: return ("+", [("/", a, ("*", [b, N(2, 3, 1)])), ("/", g(), b)])
        if x < 0.96: return ("+", [("*", [a, b]), ("*", [a, g()])])
        return ("*", [("+", [a, ("*", [("n", -1.0), b])]), ("+", [a, b])])

def too_steep(t):
    """nested numeric exponents that drive constants below the library's documented 1e-14 zero threshold"""
    def go(u, e):
        """sum of |log10| of all constants, exponents multiplied in: what folding can at most combine"""
        k = u[0]
        if k == "n":
            c = abs(u[1])
            return 0.0 if c in (0.0, 1.0) else abs(math.log10(c)) * e
        if k == "^":
            x = abs(u[2][1]) if u[2][0] == "n" else (3.0 if u[2][0] != "/" else 1.0)
            return go(u[1], e * max(1.0, x)) + go(u[2], 1)
        if k == "P":
            d = max([1] + [p for p, _ in u[2]])
            return go(u[1], e * d) + e * sum(abs(math.log10(abs(c))) for _, c in u[2] if c)
        return sum(go(c, e) for c in O.children(u))
    def depth(u):
        m = max([0.0] + [depth(c) for c in O.children(u)])
        if u[0] == "^" and u[2][0] == "n": return max(m, abs(u[2][1]) * max(1.0, deg(u[1])))
        return m
    def deg(u):
        if u[0] == "^" and u[2][0] == "n": return abs(u[2][1]) * deg(u[1])
        return max([1.0] + [deg(c) for c in O.children(u)])
    return go(t, 1.0) > 11 or depth(t) > 40

def bad(t, ds, envs, st, cmd="simp"):
    try: s = R.call(f"{cmd} {1 if ds else 0} {R.enc(t)}", 10)
    except R.Timeout: st["timeout"] += 1; return None
    except R.RPanic as e: return ("panic", str(e), None, None)
    if s.startswith("ERR"): return ("error", s, None, None)
    r = R.dec(s)
    return value_mismatch(t, r, envs, st, ds)
def jiggle(t, eps, ex=False):
    """the tree with its numeric constants moved by a relative eps (exponents excepted)"""
    k = t[0]
    if k == "n": return t if ex else ("n", t[1] * (1 + eps))
    if k in "+*": return (k, [jiggle(x, eps * (1 if i % 2 else -0.7), ex) for i, x in enumerate(t[1])])
    if k == "/": return (k, jiggle(t[1], eps, ex), jiggle(t[2], -eps, ex))
    if k == "^": return (k, jiggle(t[1], eps), jiggle(t[2], eps, True))
    if k == "f": return ("f", t[1], [jiggle(x, eps) for x in t[2]]) if not any(x[0] == "n" for x in t[2][:-1]) else ("f", t[1], list(t[2][:-1]) + [jiggle(t[2][-1], eps)])
    if k == "P": return ("P", jiggle(t[1], eps), [(p, c * (1 + eps * (-1) ** p)) for p, c in t[2]])
    return t
def wiggle_pi(t):
    """sine/cosine-like values of multiples of pi are only zero up to rounding in the real code"""
    return any(x[0] == "s" and x[1] in O.CONST for x in O.nodes(t))
LOOSE = set("besselj bessely besseli besselk zeta zeta_deriv gamma digamma trigamma tetragamma polygamma beta erfc erf lambertw elliptic_k elliptic_e assoc_legendre spherical_harmonic ynm lgamma".split())       # approximations good to about 1e-6 (C15)
def illcond(t, e, d):
    """rounding of the input's own constants explains a difference of size d at e"""
    x = O.ev(O.term(t), e)
    if x is None: return True
    for u in O.nodes(t):                          # at a jump
        if u[0] == "f" and u[1] in ("floor", "ceil", "round", "signum", "sign", "sgn", "abs"):
            v = O.ev(O.term(u[2][0]), e)
            if v is None or (u[1] != "abs" and abs(v.v * 2 - mpmath.nint(v.v * 2)) < 1e-9 and O.names(u)) or (u[1] in ("floor", "ceil", "round") and u[2][0][0] != "n" and abs(v.v * 2 - mpmath.nint(v.v * 2)) < 1e-9): return True
    for s in (3e-14, -2e-14):
        try: y = O.ev(O.term(jiggle(t, s)), e)
        except (O.Bad, OverflowError, ValueError): return True
        if y is None or abs(y.v - x.v) > 0.003 * d: return True
    with mpmath.workdps(60):
        y = O.ev(O.term(t), e)
        if y is None or abs(y.v - x.v) > 0.003 * d: return True
    for s in (1, 2):
        y = rounded(t, e, s, 3e-6 if any(u[0] == 'f' and u[1] in LOOSE for u in O.nodes(t)) else 1e-15)
        if y is None or abs(y.v - x.v) > 0.003 * d: return True
    return False
def rounded(t, e, seed, rel=1e-15):
    """value with every intermediate result rounded"""
    tm.NOISE = (random.Random(seed), mpf(rel))
    try: return O.ev(O.term(t), e)
    finally: tm.NOISE = None
def tiny_const(t):
    """a closed subexpression below the library's documented zero threshold (or beyond its reciprocal)"""
    for u in O.nodes(t):
        if u[0] in "ns": continue
        if not O.names(u):
            v = O.ev(O.term(u), {})
            if v is None or (v.v != 0 and not 1e-11 < abs(v.v) < 1e11): return True
    return False
def hidden_square(t):
    """a root of a sum that may be a perfect square of something negative"""
    for x in O.nodes(t):
        b = x[1] if x[0] == "^" and not (x[2][0] == "n" and x[2][1] == int(x[2][1])) else x[2][0] if x[0] == "f" and x[1] in O.POSF else None
        if b is not None and any(y[0] in "+P" and any(z[0] == "n" and z[1] < 0 or z[0] == "P" and any(c < 0 for _, c in z[2]) for z in O.nodes(y)) for y in O.nodes(b)): return True
    return False
def has_root(t):
    return any((x[0] == "^" and not (x[2][0] == "n" and x[2][1] == int(x[2][1]))) or (x[0] == "f" and x[1] in O.POSF) for x in O.nodes(t))
def value_mismatch(t, r, envs, st, ds):
    try: a, b = O.term(t), O.term(r)
    except (O.Bad, RecursionError): return None
    und = 0; ok = 0; wu = None
    for e in envs:
        x = O.ev(a, e)
        if x is None or abs(x.v) > 1e25 or x.scale > 1e25: continue
        if not ds and not (O.principal_ok(t) and O.matched_positive(t, e)): continue
        y = O.ev(b, e)
        if y is None:
            if ds and abs(x.v) > 1e-25 and x.scale < 1e3 and x.small > 1e-9: und += 1; wu = (e, x.v)
            continue
        st["points"] += 1; ok += 1
        if not ds and has_root(t) and not O.matched_positive(r, e): continue   # a root of an even power that only appeared on the way
        if not O.same(x, y):
            # an ill-conditioned point is not a witness: nearby points must disagree as well
            n = 0
            for f in (1 + 1e-7, 1 - 3e-7):
                e2 = {k: v * O.mpf(f) for k, v in e.items()}
                x2, y2 = O.ev(a, e2), O.ev(b, e2)
                if x2 is not None and y2 is not None and not O.same(x2, y2): n += 1
            if (n == 2 or not e) and not tiny_const(t) and (ds or not hidden_square(t)) and not illcond(t, e, abs(x.v - y.v)): return ("value", R.show(r), e, (x.v, y.v))
    if ds and und >= 2:
        e = wu[0]; n = 0
        for f in (1 + 1e-7, 1 - 3e-7):
            e2 = {k: v * O.mpf(f) for k, v in e.items()}
            if O.ev(a, e2) is not None and O.ev(b, e2) is None: n += 1
        if n == 2 and not tiny_const(t) and not illcond(t, e, 1): return ("undefined", R.show(r), e, (wu[1], "undefined"))
    return None
def work(a):
    seed, n, fl = a
    rnd = random.Random(seed); st = collections.Counter(); out = []
    for i in range(n):
        ds = rnd.random() < 0.5
        g = G2(rnd, fl, names=("x", "y"), special=rnd.random() < 0.15, ufs=("f",) if rnd.random() < 0.2 else (), poly=True)
        t = g.tree(rnd.choice([2, 2, 3, 3, 4]))
        if O.size(t) > 60 or too_steep(t): continue
        envs = [O.env(rnd, ["x", "y"], pos=not ds) for _ in range(4)]
        st["cases"] += 1
        try: w = bad(t, ds, envs, st)
        except Exception as e: st["exc:" + type(e).__name__] += 1; continue
        if w:
            k = w[0]
            def again(c):
                if too_steep(c): return False
                q = bad(c, ds, envs, collections.Counter())
                return bool(q) and q[0] == k
            try: t2 = O.shrink(t, again)
            except Exception: t2 = t
            w2 = bad(t2, ds, envs, collections.Counter()) or w
            out.append((t2, ds, w2))
            if len(out) >= 3: break
    return out, st
def run(C, fl, quick, thorough):
    per = 40
    n = thorough if C.thorough else quick
    tot = {}
    st = collections.Counter()
    for out, s in par.run(work, [(C.seed * 1000003 + i * 17, per, fl) for i in range(max(1, n // per))], C):
        st.update(s)
        for t, ds, w in out: report(C, t, ds, w)
    C.bounded["simplifier_vs_oracle"] = {**st, "cases": st["cases"], "bound": "random expressions of depth <= 4 and at most 60 nodes biased towards rule patterns, 4 points each, both modes; real simplifier against a 30-digit oracle"}
def report(C, t, ds, w):
    mode = "domain-safe" if ds else "default"
    if w[0] in ("panic", "error"): what = f"simplify ({mode}) of {R.show(t)}: {w[0]} {w[1]}"
    else: what = f"simplify ({mode}) rewrites {R.show(t)} to {w[1]}; at { {k: float(v) for k, v in w[2].items()} } the values are {w[3][0]} and {w[3][1]}"
    C.violate(f"simp:{w[0]}:{R.show(t)}", what, {"kind": "simp", "domain_safe": ds, "input": R.enc(t), "env": {k: str(v) for k, v in (w[2] or {}).items()}})
