"""Real-valued term language, exponential-polynomial normal form and numeric evaluation.

A term is a hash-consed tree.  `norm` maps a term to a polynomial (dict monomial -> Fraction)
over generator atoms with symbolic exponents; trigonometric and hyperbolic functions become
exponentials, powers become exponents, logarithms expand over products.  Two terms are proved
equal when the difference of their normal forms vanishes after clearing denominators.
Positivity: an atom under a non-integer power or a logarithm is taken to be positive (the callers
split the signs of base variables and state the precondition).
"""
from fractions import Fraction
import math, itertools, os

# ------------------------------------------------------------------ terms
class T:
    __slots__ = ("op", "a", "id", "_h", "isint", "fv")
    _tab = {}
    _n = 0
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __add__(self, o): return add(self, o)
    def __sub__(self, o): return sub(self, o)
    def __mul__(self, o): return mul(self, o)
    def __truediv__(self, o): return div(self, o)
    def __neg__(self): return neg(self)

def mk(op, *a):
    k = (op, a)
    t = T._tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.id = T._n; T._n += 1
        T._tab[k] = t
    return t

def num(q):
    if not isinstance(q, Fraction): q = Fraction(q)
    return mk("num", q)
def var(n): return mk("var", n)
def fn(n, *args): return mk("fn", n, *args)
ZERO = num(0); ONE = num(1); TWO = num(2)
PI = mk("const", "pi"); E1 = mk("const", "e")
INF = mk("const", "inf"); NAN = mk("const", "nan"); NINF = mk("const", "-inf")

def isnum(t): return t.op == "num"
def special(t): return t.op == "const" and t.a[0] in ("inf", "nan", "-inf")

def add(x, y):
    if isnum(x) and isnum(y): return num(x.a[0] + y.a[0])
    if isnum(x) and x.a[0] == 0: return y
    if isnum(y) and y.a[0] == 0: return x
    return mk("add", x, y)
def neg(x):
    if isnum(x): return num(-x.a[0])
    if x.op == "neg": return x.a[0]
    if x is INF: return NINF
    if x is NINF: return INF
    return mk("neg", x)
def sub(x, y):
    if isnum(x) and isnum(y): return num(x.a[0] - y.a[0])
    if isnum(y) and y.a[0] == 0: return x
    if isnum(x) and x.a[0] == 0: return neg(y)
    if x is y and not special(x): return ZERO
    return mk("add", x, neg(y))
def mul(x, y):
    if isnum(x) and isnum(y): return num(x.a[0] * y.a[0])
    if isnum(x) and x.a[0] == 1: return y
    if isnum(y) and y.a[0] == 1: return x
    if isnum(x) and x.a[0] == 0 and not special(y): return ZERO
    if isnum(y) and y.a[0] == 0 and not special(x): return ZERO
    return mk("mul", x, y)
def div(x, y):
    if isnum(x) and isnum(y) and y.a[0] != 0: return num(x.a[0] / y.a[0])
    if isnum(y) and y.a[0] == 1: return x
    return mk("div", x, y)
def powt(x, y):
    if isnum(y):
        if y.a[0] == 1: return x
        if y.a[0] == 0: return ONE
        if isnum(x) and y.a[0].denominator == 1 and abs(y.a[0]) < 400 and not (x.a[0] == 0 and y.a[0] < 0):
            return num(x.a[0] ** int(y.a[0]))
    return mk("pow", x, y)
def addn(xs):
    r = ZERO
    for x in xs: r = add(r, x)
    return r
def muln(xs):
    r = ONE
    for x in xs: r = mul(r, x)
    return r

def show(t):
    o = t.op
    if o == "num": return str(t.a[0])
    if o == "var": return str(t.a[0])
    if o == "const": return t.a[0]
    if o == "add": return f"({show(t.a[0])} + {show(t.a[1])})"
    if o == "neg": return f"-{show(t.a[0])}"
    if o == "mul": return f"{show(t.a[0])}*{show(t.a[1])}"
    if o == "div": return f"({show(t.a[0])})/({show(t.a[1])})"
    if o == "pow": return f"({show(t.a[0])})^({show(t.a[1])})"
    if o == "fn": return f"{t.a[0]}({', '.join(show(x) if isinstance(x, T) else str(x) for x in t.a[1:])})"
    return f"{o}({', '.join(show(x) if isinstance(x, T) else str(x) for x in t.a)})"

def subst(t, m, memo=None):
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    if t in m:
        r = subst(m[t], m, memo) if m[t] is not t else t
    elif t.op in ("num", "var", "const"): r = t
    else:
        a = [subst(x, m, memo) if isinstance(x, T) else x for x in t.a]
        r = rebuild(t.op, a)
    memo[t] = r
    return r
def rebuild(op, a):
    if op == "add": return add(*a)
    if op == "neg": return neg(*a)
    if op == "mul": return mul(*a)
    if op == "div": return div(*a)
    if op == "pow": return powt(*a)
    return mk(op, *a)
_EMPTY = frozenset()
def free_vars(t):
    try: return t.fv
    except AttributeError: pass
    st = [t]
    while st:
        x = st[-1]
        if hasattr(x, "fv"): st.pop(); continue
        if x.op == "var": x.fv = frozenset((x,)); st.pop(); continue
        ks = [y for y in x.a if isinstance(y, T)]
        w = [y for y in ks if not hasattr(y, "fv")]
        if w: st.extend(w); continue
        r = _EMPTY
        for y in ks:
            if y.fv and not (y.fv <= r): r = (r | y.fv) if r else y.fv
        x.fv = r; st.pop()
    return t.fv
def size(t):
    return 1 + sum(size(x) for x in t.a if isinstance(x, T))

# ------------------------------------------------------------------ symbolic derivative of a term
class NoDeriv(Exception): pass
def D(t, dvar, memo=None):
    """dvar: T var -> T derivative."""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    o = t.op
    if o in ("num", "const"): r = ZERO
    elif o == "var": r = dvar(t)
    elif o == "add": r = add(D(t.a[0], dvar, memo), D(t.a[1], dvar, memo))
    elif o == "neg": r = neg(D(t.a[0], dvar, memo))
    elif o == "mul":
        x, y = t.a
        r = add(mul(D(x, dvar, memo), y), mul(x, D(y, dvar, memo)))
    elif o == "div":
        x, y = t.a
        r = div(sub(mul(D(x, dvar, memo), y), mul(x, D(y, dvar, memo))), mul(y, y))
    elif o == "pow":
        b, e = t.a
        db, de = D(b, dvar, memo), D(e, dvar, memo)
        r = ZERO
        if db is not ZERO: r = add(r, mul(mul(e, powt(b, sub(e, ONE))), db))
        if de is not ZERO: r = add(r, mul(mul(powt(b, e), fn("ln", b)), de))
    elif o == "fn":
        n, args = t.a[0], t.a[1:]
        r = ZERO
        for i, x in enumerate(args):
            if not isinstance(x, T): continue
            dx = D(x, dvar, memo)
            if dx is ZERO: continue
            r = add(r, mul(partial(n, args, i), dx))
    else: raise NoDeriv(o)
    memo[t] = r
    return r

def sq(x): return mul(x, x)
def sqrt(x): return powt(x, num(Fraction(1, 2)))
def partial(n, args, i):
    u = args[0]
    f = lambda m, *a: fn(m, *a)
    one = {
        "sin": lambda: f("cos", u), "cos": lambda: neg(f("sin", u)),
        "tan": lambda: div(ONE, sq(f("cos", u))), "cot": lambda: neg(div(ONE, sq(f("sin", u)))),
        "sec": lambda: div(f("sin", u), sq(f("cos", u))), "csc": lambda: neg(div(f("cos", u), sq(f("sin", u)))),
        "asin": lambda: div(ONE, sqrt(sub(ONE, sq(u)))), "acos": lambda: neg(div(ONE, sqrt(sub(ONE, sq(u))))),
        "atan": lambda: div(ONE, add(ONE, sq(u))), "acot": lambda: neg(div(ONE, add(ONE, sq(u)))),
        "asec": lambda: div(ONE, mul(f("abs", u), sqrt(sub(sq(u), ONE)))),
        "acsc": lambda: neg(div(ONE, mul(f("abs", u), sqrt(sub(sq(u), ONE))))),
        "sinh": lambda: f("cosh", u), "cosh": lambda: f("sinh", u),
        "tanh": lambda: div(ONE, sq(f("cosh", u))), "coth": lambda: neg(div(ONE, sq(f("sinh", u)))),
        "sech": lambda: neg(div(f("sinh", u), sq(f("cosh", u)))), "csch": lambda: neg(div(f("cosh", u), sq(f("sinh", u)))),
        "asinh": lambda: div(ONE, sqrt(add(sq(u), ONE))), "acosh": lambda: div(ONE, sqrt(sub(sq(u), ONE))),
        "atanh": lambda: div(ONE, sub(ONE, sq(u))), "acoth": lambda: div(ONE, sub(ONE, sq(u))),
        "asech": lambda: neg(div(ONE, mul(u, sqrt(sub(ONE, sq(u)))))),
        "acsch": lambda: neg(div(ONE, mul(f("abs", u), sqrt(add(ONE, sq(u)))))),
        "exp": lambda: f("exp", u), "ln": lambda: div(ONE, u), "exp_polar": lambda: f("exp", u),
        "log10": lambda: div(ONE, mul(u, f("ln", num(10)))), "log2": lambda: div(ONE, mul(u, f("ln", num(2)))),
        "sqrt": lambda: div(ONE, mul(TWO, sqrt(u))),
        "cbrt": lambda: div(ONE, mul(num(3), powt(f("cbrt", u), TWO))),
        "abs": lambda: f("signum", u), "signum": lambda: ZERO,
        "floor": lambda: ZERO, "ceil": lambda: ZERO, "round": lambda: ZERO, "trunc": lambda: ZERO, "fsignum": lambda: ZERO,
        "erf": lambda: mul(div(TWO, sqrt(PI)), f("exp", neg(sq(u)))),
        "erfc": lambda: neg(mul(div(TWO, sqrt(PI)), f("exp", neg(sq(u))))),
        "gamma": lambda: mul(f("gamma", u), f("polygamma", ZERO, u)),
        "lgamma": lambda: f("polygamma", ZERO, u),
        "digamma": lambda: f("polygamma", ONE, u), "trigamma": lambda: f("polygamma", TWO, u),
        "tetragamma": lambda: f("polygamma", num(3), u),
        "lambertw": lambda: div(f("lambertw", u), mul(u, add(ONE, f("lambertw", u)))),
        "elliptic_k": lambda: div(sub(f("elliptic_e", u), mul(sub(ONE, sq(u)), f("elliptic_k", u))), mul(u, sub(ONE, sq(u)))),
        "elliptic_e": lambda: div(sub(f("elliptic_e", u), f("elliptic_k", u)), u),
        "zeta": lambda: f("zeta_deriv", ONE, u),
        "sinc": lambda: div(sub(mul(u, f("cos", u)), f("sin", u)), sq(u)),
    }
    if n in one and len(args) == 1: return one[n]()
    if n == "log" and len(args) == 2:          # log(base, x)
        b, x = args
        if i == 1: return div(ONE, mul(x, f("ln", b)))
        return neg(div(f("ln", x), mul(b, sq(f("ln", b)))))
    if n == "atan2" and len(args) == 2:        # atan2(y, x)
        y, x = args; d = add(sq(x), sq(y))
        return div(x, d) if i == 0 else neg(div(y, d))
    if n == "polygamma" and len(args) == 2 and i == 1:
        return f("polygamma", add(args[0], ONE), args[1])
    if n == "zeta_deriv" and len(args) == 2 and i == 1:
        return f("zeta_deriv", add(args[0], ONE), args[1])
    if n == "beta" and len(args) == 2:
        x, y = args; z = args[i]
        return mul(f("beta", x, y), sub(f("polygamma", ZERO, z), f("polygamma", ZERO, add(x, y))))
    if n in ("besselj", "bessely", "besseli", "besselk") and len(args) == 2 and i == 1:
        k, x = args; p, q = f(n, sub(k, ONE), x), f(n, add(k, ONE), x)
        if n in ("besselj", "bessely"): return div(sub(p, q), TWO)
        if n == "besseli": return div(add(p, q), TWO)
        return neg(div(add(p, q), TWO))
    if n == "hermite" and len(args) == 2 and i == 1:
        return mul(mul(TWO, args[0]), f("hermite", sub(args[0], ONE), args[1]))
    if n == "assoc_legendre" and len(args) == 3 and i == 2:
        l, m, x = args
        return div(sub(mul(mul(l, x), f(n, l, m, x)), mul(add(l, m), f(n, sub(l, ONE), m, x))), sub(sq(x), ONE))
    return mk("fn", ("partial", n, i), *args)

# ------------------------------------------------------------------ normal form
class Undef(Exception): pass
class TooBig(Exception): pass
MAXTERMS = 6000

_atoms = {}; _alist = []
def atom(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_alist); _atoms[key] = i; _alist.append(key)
    return i
A_E = atom(("e",)); A_PI = atom(("pi",)); A_I = atom(("I",))
_polyatom = {}     # atom id -> poly (for 'poly' and 'abs' atoms)
INTATOMS = set()   # atom ids known to be integers (set per query)

# exponents: Fraction or ('P', frozenset(items)) ; monomial: tuple of (atom, exp) sorted
def pkey(p): return ("P", frozenset(p.items()))
def exp_poly(e):
    if isinstance(e, Fraction): return {(): e} if e else {}
    return dict(e[1])
def exp_from(p):
    if not p: return Fraction(0)
    if len(p) == 1 and () in p: return p[()]
    return pkey(p)
def exp_add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a + b
    p = exp_poly(a).copy()
    for m, c in exp_poly(b).items():
        v = p.get(m, 0) + c
        if v: p[m] = v
        else: p.pop(m, None)
    return exp_from(p)
def exp_mulp(e, q):
    return exp_from(pmul(exp_poly(e), q))

def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pscale(a, c): return {m: v * c for m, v in a.items()} if c else {}
def pconst(c): return {(): Fraction(c)} if c else {}
def pmono(m, c=Fraction(1)): return {m: c}
PONE = pconst(1)

_mm = {}
def monomul(m1, m2):
    """product of monomials -> poly"""
    if not m1: return {m2: Fraction(1)}
    if not m2: return {m1: Fraction(1)}
    k = (m1, m2)
    r = _mm.get(k)
    if r is None:
        d = dict(m1)
        for a, e in m2:
            if a in d:
                s = exp_add(d[a], e)
                if s == 0: del d[a]
                else: d[a] = s
            else: d[a] = e
        r = fixmono(d)
        if len(_mm) > 400000: _mm.clear()
        _mm[k] = r
    return r
def _cmpable(a, b): return False

def fixmono(d):
    """normalise special atoms of an exponent dict -> poly"""
    coef = Fraction(1); extra = None
    d = dict(d)
    if A_E in d: d = fix_e(d)
    if A_I in d:
        e = d[A_I]
        if isinstance(e, Fraction) and e.denominator == 1:
            k = int(e) % 4
            del d[A_I]
            if k in (2, 3): coef = -coef
            if k in (1, 3): d[A_I] = Fraction(1)
    todo = []
    for a in list(d):
        key = _alist[a]
        if key[0] == "prime":
            e = d[a]
            p0 = exp_poly(e); c = p0.get((), Fraction(0))
            k = c.numerator // c.denominator
            if k:
                coef *= Fraction(key[1]) ** k
                e = exp_add(e, Fraction(-k))
                if e == 0: del d[a]
                else: d[a] = e
        elif key[0] == "poly":
            e = d[a]
            c = e if isinstance(e, Fraction) else exp_poly(e).get((), Fraction(0))
            k = c.numerator // c.denominator
            if k > 0:
                if k > 60: raise TooBig()
                todo.append((a, k))
                e = exp_add(e, Fraction(-k))
                if e == 0: del d[a]
                else: d[a] = e
            elif k < 0 and c.denominator != 1:
                # keep fractional part in [0,1), negative integer part separate: canonical form a^(k) * a^(frac)
                pass
        elif key[0] == "abs":
            e = d[a]
            if isinstance(e, Fraction) and e.denominator == 1 and e >= 2:
                k = int(e) // 2
                todo.append((a, 2 * k))
                if e % 2 == 0: del d[a]
                else: d[a] = Fraction(1)
    p = {tuple(sorted(d.items(), key=lambda x: x[0])): coef}
    for a, k in todo:
        p = pmul(p, ppow(_polyatom[a], k))
    return p

def fix_e(d):
    e = exp_poly(d.pop(A_E))
    out = {}
    d = dict(d)
    def bump(a, x):
        if a in d:
            s = exp_add(d[a], x)
            if s == 0: del d[a]
            else: d[a] = s
        elif x != 0: d[a] = x
    for m, c in e.items():
        # m contains a ln atom to the first power -> base ^ rest
        ln = None
        for a, x in m:
            if _alist[a][0] == "ln" and x == 1:
                ln = a; break
        if ln is not None:
            rest = tuple(t for t in m if t[0] != ln)
            base = _alist[ln][1]
            bump(base, exp_from({rest: c}))
            continue
        md = dict(m)
        if md.get(A_I) == 1 and md.get(A_PI) == 1 and all(
                a in (A_I, A_PI) or (a in INTATOMS and isinstance(x, Fraction) and x.denominator == 1 and x > 0) for a, x in m):
            c = c - 2 * ((c / 2).__floor__())       # mod 2
            if len(m) == 2:
                k = (c * 2).__floor__()
                if k:
                    bump(A_I, Fraction(k))
                    c -= Fraction(k, 2)
            if c: out[m] = c
            continue
        v = out.get(m, 0) + c
        if v: out[m] = v
        else: out.pop(m, None)
    if out:
        if A_E in d: d[A_E] = exp_add(d[A_E], exp_from(out))
        else: d[A_E] = exp_from(out)
    if A_E in d and d[A_E] == 0: del d[A_E]
    return d

def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > 400000: raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            pp = monomul(m1, m2)
            c = c1 * c2
            for m, x in pp.items():
                v = r.get(m)
                v = x * c if v is None else v + x * c
                if v: r[m] = v
                else: r.pop(m, None)
    if len(r) > MAXTERMS: raise TooBig()
    return r
def ppow(p, k):
    r = PONE
    while k:
        if k & 1: r = pmul(r, p)
        k >>= 1
        if k: p = pmul(p, p)
    return r

def content(p):
    """p = c * mono * prim with c>0 rational; mono has the common integer/symbolic powers."""
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a not in d: common[a] = None if not isinstance(common[a], Fraction) else min(common[a], Fraction(0))
            elif common[a] is None: pass
            elif isinstance(common[a], Fraction) and isinstance(d[a], Fraction): common[a] = min(common[a], d[a])
            elif common[a] != d[a]: common[a] = None
        for a, e in d.items():
            if a not in common:
                common[a] = min(e, Fraction(0)) if isinstance(e, Fraction) else None
    # symbolic exponents: subtract constant-free part only if identical everywhere
    mono = {a: e for a, e in common.items() if e is not None and e != 0 and not (a == A_I) and _alist[a][0] not in ("prime",)}
    mono = {a: e for a, e in mono.items()}
    from math import gcd
    n = 0; dd = 1
    for c in p.values():
        n = gcd(n, abs(c.numerator)); dd = dd * c.denominator // gcd(dd, c.denominator)
    c = Fraction(n, dd)
    inv = tuple(sorted(((a, (-e if isinstance(e, Fraction) else exp_from(pscale(exp_poly(e), Fraction(-1))))) for a, e in mono.items()), key=lambda x: x[0]))
    q = {}
    for m, v in p.items():
        for m2, x in monomul(m, inv).items():
            w = q.get(m2, 0) + x * v / c
            if w: q[m2] = w
            else: q.pop(m2, None)
    return c, mono, q

def factorint(n):
    f = {}; p = 2
    while p * p <= n and p < 100000:
        while n % p == 0: f[p] = f.get(p, 0) + 1; n //= p
        p += 1 if p == 2 else 2
    if n > 1: f[n] = f.get(n, 0) + 1
    return f

def base_decomp(p):
    """decompose a poly assumed positive into {atom: exponent} (product); may include e^(I pi) for signs."""
    if not p: return None
    c, mono, q = content(p)
    out = dict(mono)
    for pr, k in factorint(c.numerator).items(): out[atom(("prime", pr))] = Fraction(k)
    for pr, k in factorint(c.denominator).items(): out[atom(("prime", pr))] = Fraction(-k)
    sign = 1
    if len(q) == 1:
        (m, v), = q.items()
        if v < 0: sign = -1; v = -v
        assert v == 1, (v,)
        for a, e in m:
            out[a] = exp_add(out.get(a, Fraction(0)), e)
    else:
        a = poly_atom(q)
        out[a] = exp_add(out.get(a, Fraction(0)), Fraction(1))
    return sign, out

def poly_atom(q):
    a = atom(("poly", frozenset(q.items())))
    _polyatom[a] = q
    return a

def from_exps(out):
    return fixmono({a: e for a, e in out.items() if e != 0})

def inv_poly(p):
    if not p: raise Undef("1/0")
    return pow_poly_int(p, -1)
def pow_poly_int(p, k):
    if k >= 0:
        if k > 64 and len(p) > 1: raise TooBig()
        return ppow(p, k)
    s, out = base_decomp(p)
    r = from_exps({a: (e * k if isinstance(e, Fraction) else exp_from(pscale(exp_poly(e), Fraction(k)))) for a, e in out.items()})
    return pscale(r, Fraction(-1)) if (s < 0 and k % 2) else r

def is_intpoly(e):
    return all(c.denominator == 1 and all(a in INTATOMS and isinstance(x, Fraction) and x.denominator == 1 and x >= 0 for a, x in m) for m, c in e.items())

def pow_poly(b, e):
    """b ^ e, e a poly"""
    if len(e) == 0: return PONE
    if len(e) == 1 and () in e and e[()].denominator == 1:
        return pow_poly_int(b, int(e[()]))
    if not b: 
        if len(e) == 1 and () in e and e[()] > 0: return {}
        raise Undef("0^sym")
    s, out = base_decomp(b)
    r = {}
    for a, x in out.items():
        r[a] = exp_from(pmul(exp_poly(x), e))
    if s < 0:
        if not is_intpoly(e): raise Undef("neg^nonint")
        ie = pmul(e, {((A_PI, Fraction(1)), (A_I, Fraction(1))): Fraction(1)})
        r[A_E] = exp_add(r.get(A_E, Fraction(0)), exp_from(ie))
    return from_exps(r)

def exp_of(p):
    """e^p"""
    return from_exps({A_E: exp_from(p)}) if p else PONE

def ln_of(p):
    if not p: raise Undef("ln 0")
    s, out = base_decomp(p)
    if s < 0: raise Undef("ln neg")
    r = {}
    for a, e in out.items():
        if a == A_E: t = exp_poly(e)
        else: t = pmul(exp_poly(e), pmono(((atom(("ln", a)), Fraction(1)),)))
        r = padd(r, t)
    return r

PI_P = pmono(((A_PI, Fraction(1)),))
I_P = pmono(((A_I, Fraction(1)),))
HALF = Fraction(1, 2)
def special_exp_I(q):
    """e^{I pi q} for rational q -> poly in sqrt's"""
    q = q - 2 * (q / 2).__floor__()
    tab = {Fraction(1, 6): (("3", HALF), HALF), Fraction(1, 3): (HALF, ("3", HALF)), Fraction(1, 4): (("2", HALF), ("2", HALF))}
    k = (q * 2).__floor__(); r = q - Fraction(k, 2)
    base = PONE
    if r in tab:
        def tr(x):
            if isinstance(x, Fraction): return pconst(x)
            return pscale(pow_poly(pconst(int(x[0])), pconst(HALF)), HALF)
        re, im = tab[r]
        base = padd(tr(re), pmul(I_P, tr(im)))
    elif r == 0: base = PONE
    else: return None
    return pmul(base, ppow(I_P, k)) if k else base

def expI(u):
    """e^{I u}, u poly"""
    rest = dict(u); c = Fraction(0)
    kpi = ((A_PI, Fraction(1)),)
    sp = None
    if kpi in rest:
        sp = special_exp_I(rest[kpi])
        if sp is not None: del rest[kpi]
    r = exp_of(pmul(I_P, rest))
    return pmul(r, sp) if sp is not None else r

def fnatom(name, keys):
    return pmono(((atom(("fn", name) + tuple(keys)), Fraction(1)),))

class Norm:
    """normaliser; `sub` maps T vars to T terms (facts), ints: set of integer T vars, signs: T var -> -1 means negative."""
    def __init__(self, ints=(), neg=(), nonneg_abs=True):
        self.memo = {}
        self.ints = set(ints); self.neg = set(neg)
        for t in self.ints:
            INTATOMS.add(atom(("var", t.a[0])))
        self.pos = nonneg_abs
    def n(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.norm(t); self.memo[t] = r
        return r
    def norm(self, t):
        o = t.op
        if o == "num": return pconst(t.a[0])
        if o == "var":
            p = pmono(((atom(("var", t.a[0])), Fraction(1)),))
            return pscale(p, Fraction(-1)) if t in self.neg else p
        if o == "const":
            if t.a[0] == "pi": return PI_P
            if t.a[0] == "e": return exp_of(PONE)
            raise Undef(t.a[0])
        if o == "add": return padd(self.n(t.a[0]), self.n(t.a[1]))
        if o == "neg": return pscale(self.n(t.a[0]), Fraction(-1))
        if o == "mul": return pmul(self.n(t.a[0]), self.n(t.a[1]))
        if o == "div":
            d = self.n(t.a[1])
            return pmul(self.n(t.a[0]), inv_poly(d))
        if o == "pow": return pow_poly(self.n(t.a[0]), self.n(t.a[1]))
        if o == "fn": return self.fn(t)
        keys = [pkey(self.n(x)) if isinstance(x, T) else x for x in t.a]
        return fnatom("#" + o, keys)
    def fn(self, t):
        name, args = t.a[0], t.a[1:]
        A = [self.n(x) if isinstance(x, T) else x for x in args]
        if len(A) == 1:
            u = A[0]
            if name == "exp" or name == "exp_polar": return exp_of(u)
            if name == "ln": return ln_of(u)
            if name == "log10": return pmul(ln_of(u), inv_poly(ln_of(pconst(10))))
            if name == "log2": return pmul(ln_of(u), inv_poly(ln_of(pconst(2))))
            if name == "log1p": return ln_of(padd(u, PONE))
            if name == "expm1": return padd(exp_of(u), pconst(-1))
            if name == "sqrt": return pow_poly(u, pconst(HALF))
            if name == "cbrt":
                if not u: return {}
                s, out = base_decomp(u)
                r = from_exps({a: exp_from(pscale(exp_poly(x), Fraction(1, 3))) for a, x in out.items()})
                return pscale(r, Fraction(s))
            if name == "abs":
                if not u: return {}
                return self.absp(u)
            if name in ("signum", "sign", "sgn"):
                if not u: return {}
                return pmul(u, inv_poly(self.absp(u)))
            inv = self.inverse_arg(args[0])
            if name in TRIG or name in HYP:
                r = self.of_inverse(name, args[0])
                if r is not None: return r
            if name in TRIG:
                z = expI(u); zi = expI(pscale(u, Fraction(-1)))
                c = pscale(padd(z, zi), HALF)
                s = pmul(pscale(padd(z, pscale(zi, Fraction(-1))), -HALF), I_P)
                return comb(name, s, c)
            if name in HYP:
                z = exp_of(u); zi = exp_of(pscale(u, Fraction(-1)))
                c = pscale(padd(z, zi), HALF)
                s = pscale(padd(z, pscale(zi, Fraction(-1))), HALF)
                return comb(HYP[name], s, c)
            if name == "sinc":
                if not u: return PONE
                return pmul(self.n(mk("fn", "sin", args[0])), inv_poly(u))
            if name in ("digamma", "trigamma", "tetragamma"):
                k = {"digamma": 0, "trigamma": 1, "tetragamma": 2}[name]
                return fnatom("polygamma", [pkey(pconst(k)), pkey(u)])
            if (name in ODD or name in EVEN) and u:
                s = leadsign(u)
                if s < 0:
                    r = fnatom(name, [pkey(pscale(u, Fraction(-1)))])
                    return pscale(r, Fraction(-1)) if name in ODD else r
            if name == "acos": return padd(pscale(PI_P, HALF), pscale(self.n(mk("fn", "asin", args[0])), Fraction(-1)))
            if name == "acot": return padd(pscale(PI_P, HALF), pscale(self.n(mk("fn", "atan", args[0])), Fraction(-1)))
            if name == "asec" : return self.n(fn("acos", div(ONE, args[0])))
            if name == "acsc" : return self.n(fn("asin", div(ONE, args[0])))
            if name == "erfc": return padd(PONE, pscale(self.n(fn("erf", args[0])), Fraction(-1)))
            if name == "acoth": return self.n(fn("atanh", div(ONE, args[0])))
            if name == "asech": return self.n(fn("acosh", div(ONE, args[0])))
            if name == "acsch": return self.n(fn("asinh", div(ONE, args[0])))
            if name in ("asin", "atan", "asinh", "atanh"):
                if not u: return {}
            if name in ("floor", "ceil", "round", "trunc") and is_intpoly(u): return u
            if name == "fract":
                if is_intpoly(u): return {}
                return padd(u, pscale(self.n(fn("trunc", args[0])), Fraction(-1)))
        if len(A) == 2:
            if name == "log":
                return pmul(ln_of(A[1]), inv_poly(ln_of(A[0])))
            if name == "ynm": return self.n(mk("fn", "spherical_harmonic", *args))
            if name == "atan2" and A[0] == PONE: return padd(pscale(PI_P, HALF), pscale(self.n(mk("fn", "atan", args[1])), Fraction(-1)))
            if name == "zeta_deriv" and not A[0]: return fnatom("zeta", [pkey(A[1])])
            if name == "beta":
                g = lambda p: fnatom("gamma", [pkey(p)])
                return pmul(pmul(g(A[0]), g(A[1])), inv_poly(g(padd(A[0], A[1]))))
        keys = [pkey(x) if isinstance(x, dict) else x for x in A]
        if isinstance(name, tuple): name = str(name)
        return fnatom(name, keys)
    def absp(self, u):
        c, mono, q = content(u)
        out = {a: e for a, e in mono.items()}
        r = pconst(c)
        r = pmul(r, from_exps(out))
        if len(q) == 1:
            (m, v), = q.items()
            return pmul(r, {m: abs(v)})
        lead = leadsign(q)
        if lead < 0: q = pscale(q, Fraction(-1))
        a = atom(("abs", frozenset(q.items()))); _polyatom[a] = q
        return pmul(r, pmono(((a, Fraction(1)),)))
    def inverse_arg(self, t): return None
    def of_inverse(self, name, t):
        """sin(asin u) etc."""
        if t.op != "fn" or len(t.a) != 2: return None
        f, u = t.a
        r = None
        if name in TRIG:
            if f == "asin": s, c = u, sqrt(sub(ONE, sq(u)))
            elif f == "acos": c, s = u, sqrt(sub(ONE, sq(u)))
            elif f == "atan": c = div(ONE, sqrt(add(ONE, sq(u)))); s = mul(u, c)
            elif f == "acot": s = div(ONE, sqrt(add(ONE, sq(u)))); c = mul(u, s)
            elif f == "asec": c = div(ONE, u); s = sqrt(sub(ONE, sq(c)))
            elif f == "acsc": s = div(ONE, u); c = sqrt(sub(ONE, sq(s)))
            else: return None
        else:
            if f == "asinh": s, c = u, sqrt(add(ONE, sq(u)))
            elif f == "acosh": c, s = u, sqrt(sub(sq(u), ONE))
            elif f == "atanh": c = div(ONE, sqrt(sub(ONE, sq(u)))); s = mul(u, c)
            elif f == "asech": c = div(ONE, u); s = sqrt(sub(sq(c), ONE))
            elif f == "acsch": s = div(ONE, u); c = sqrt(add(sq(s), ONE))
            elif f == "acoth": s = div(ONE, sqrt(sub(sq(u), ONE))); c = mul(u, s)
            else: return None
            name = HYP[name]
        return comb(name, self.n(s), self.n(c))

TRIG = {"sin", "cos", "tan", "cot", "sec", "csc"}
HYP = {"sinh": "sin", "cosh": "cos", "tanh": "tan", "coth": "cot", "sech": "sec", "csch": "csc"}
ODD = {"asin", "atan", "asinh", "atanh", "erf"}
EVEN = set()
def leadsign(p):
    m = min(p, key=lambda m: (repr([( _alist[a], str(e)) for a, e in m])))
    return 1 if p[m] > 0 else -1
def comb(name, s, c):
    if name == "sin": return s
    if name == "cos": return c
    if name == "tan": return pmul(s, inv_poly(c))
    if name == "cot": return pmul(c, inv_poly(s))
    if name == "sec": return inv_poly(c)
    return inv_poly(s)

def clear(p):
    """multiply by powers of poly atoms until no negative integer parts remain"""
    for _ in range(40):
        worst = {}
        for m in p:
            for a, e in m:
                if _alist[a][0] == "poly":
                    c = e if isinstance(e, Fraction) else exp_poly(e).get((), Fraction(0))
                    k = c.numerator // c.denominator
                    if k < 0: worst[a] = min(worst.get(a, 0), k)
        if not worst: return p
        a = min(worst, key=lambda a: len(_polyatom[a]))
        k = -worst[a]
        # multiply each monomial: exponent + k, then fixmono expands positive integer parts
        r = {}
        for m, c in p.items():
            d = dict(m)
            s = exp_add(d.get(a, Fraction(0)), Fraction(k))
            if s == 0: d.pop(a, None)
            else: d[a] = s
            for m2, x in fixmono(d).items():
                v = r.get(m2, 0) + x * c
                if v: r[m2] = v
                else: r.pop(m2, None)
            if len(r) > MAXTERMS: raise TooBig()
        p = r
    return p

def is_zero(p):
    if not p: return True
    return not clear(p)

def prove_eq(a, b, ints=(), neg=()):
    """True: proved equal; False: not shown; None: left side undefined in this orthant"""
    if a is b: return True
    INTATOMS.clear(); _mm.clear()
    N = Norm(ints, neg)
    try:
        pa = N.n(a)
    except Undef as e:
        return None
    except (TooBig, RecursionError):
        return False
    try:
        pb = N.n(b)
        return is_zero(padd(pa, pscale(pb, Fraction(-1))))
    except (Undef, TooBig, RecursionError):
        return False

# ------------------------------------------------------------------ numeric evaluation (mpmath)
import mpmath
from mpmath import mp, mpf
mp.dps = 30
class NumUndef(Exception): pass
NOISE = None       # (random, relative size): rounding of every intermediate result

def neval(t, env, memo=None):
    """real value of t (mpf) or raises NumUndef"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    r = _neval(t, env, memo)
    if isinstance(r, mpmath.mpc):
        if abs(r.imag) > mpf(10) ** -20 * (1 + abs(r.real)): raise NumUndef("complex")
        r = r.real
    if not mpmath.isfinite(r) or abs(r) > mpf(10) ** 60: raise NumUndef("inf")
    if NOISE is not None and t.op not in ("num", "var", "const") and r != mpmath.nint(r): r = r * (1 + NOISE[1] * (2 * NOISE[0].random() - 1))
    memo[t] = r
    return r

def npow(b, e):
    if b < 0:
        ei = mpmath.nint(e)
        if abs(e - ei) > 1e-18: raise NumUndef("neg pow")
        return b ** int(ei)
    if b == 0:
        if e < 0: raise NumUndef("0^-")
        if e == 0: return mpf(1)
        return mpf(0)
    if abs(e * mpmath.log(b)) > 400: raise NumUndef("big")
    return b ** e

def _neval(t, env, memo):
    o = t.op
    ev = lambda x: neval(x, env, memo)
    if o == "num": return mpf(t.a[0].numerator) / t.a[0].denominator
    if o == "var":
        v = env.get(t)
        if v is None: v = env[t] = mpf(default_value(t.a[0]))
        return mpf(v)
    if o == "const":
        if t.a[0] == "pi": return mp.pi + 0
        if t.a[0] == "e": return mp.e + 0
        raise NumUndef(t.a[0])
    if o == "add": return ev(t.a[0]) + ev(t.a[1])
    if o == "neg": return -ev(t.a[0])
    if o == "mul": return ev(t.a[0]) * ev(t.a[1])
    if o == "div":
        d = ev(t.a[1])
        if abs(d) < mpf(10) ** -24: raise NumUndef("/0")
        return ev(t.a[0]) / d
    if o == "pow": return npow(ev(t.a[0]), ev(t.a[1]))
    if o == "fn":
        args = [ev(x) if isinstance(x, T) else x for x in t.a[1:]]
        return nfn(t.a[0], args)
    if o in ("idiv", "imod"):
        x, y = ev(t.a[0]), ev(t.a[1])
        if y == 0: raise NumUndef("/0")
        q = mpmath.floor(abs(x) / abs(y)) * (1 if (x < 0) == (y < 0) else -1)
        return q if o == "idiv" else x - q * y
    # opaque operator
    args = [ev(x) if isinstance(x, T) else x for x in t.a]
    return opaque(o, args)

def default_value(name):
    import hashlib
    h = int(hashlib.md5(str(name).encode()).hexdigest()[:8], 16)
    return 0.3 + (h % 1000) / 700.0

def opaque(name, args):
    import hashlib
    h = int(hashlib.md5(str(name).encode()).hexdigest()[:12], 16)
    r = mpf(1 + h % 7) / 5
    for i, a in enumerate(args):
        if isinstance(a, (mpf, mpmath.mpf)):
            k = mpf(((h >> (3 * i)) % 11) + 2) / 9
            r += mpmath.sin(a * k + i + 1) + a * a * k / 7
        else:
            r += mpf(int(hashlib.md5(str(a).encode()).hexdigest()[:6], 16) % 97) / 31
    return r

def _dom(c):
    if not c: raise NumUndef("domain")
def nfn(n, a):
    m = mpmath
    if isinstance(n, tuple): return opaque(n, a)
    x = a[0] if a else None
    if len(a) == 1:
        if n in ("sin", "cos", "exp", "sinh", "cosh", "tanh", "atan", "asinh", "erf", "erfc"):
            if n in ("exp", "sinh", "cosh") and abs(x) > 500: raise NumUndef("big")
            return getattr(m, n)(x)
        if n == "exp_polar": return nfn("exp", a)
        if n == "tan": _dom(abs(m.cos(x)) > 1e-15); return m.tan(x)
        if n == "cot": _dom(abs(m.sin(x)) > 1e-15); return m.cos(x) / m.sin(x)
        if n == "sec": _dom(abs(m.cos(x)) > 1e-15); return 1 / m.cos(x)
        if n == "csc": _dom(abs(m.sin(x)) > 1e-15); return 1 / m.sin(x)
        if n == "coth": _dom(abs(x) > 1e-15 and abs(x) < 500); return m.cosh(x) / m.sinh(x)
        if n == "sech": _dom(abs(x) < 500); return 1 / m.cosh(x)
        if n == "csch": _dom(abs(x) > 1e-15 and abs(x) < 500); return 1 / m.sinh(x)
        if n == "asin": _dom(abs(x) <= 1); return m.asin(x)
        if n == "acos": _dom(abs(x) <= 1); return m.acos(x)
        if n == "acot": return mp.pi / 2 - m.atan(x)
        if n == "asec": _dom(abs(x) >= 1); return m.acos(1 / x)
        if n == "acsc": _dom(abs(x) >= 1); return m.asin(1 / x)
        if n == "acosh": _dom(x >= 1); return m.acosh(x)
        if n == "atanh": _dom(abs(x) < 1); return m.atanh(x)
        if n == "acoth": _dom(abs(x) > 1); return m.atanh(1 / x)
        if n == "asech": _dom(0 < x <= 1); return m.acosh(1 / x)
        if n == "acsch": _dom(x != 0); return m.asinh(1 / x)
        if n == "ln": _dom(x > 0); return m.log(x)
        if n == "log10": _dom(x > 0); return m.log(x) / m.log(10)
        if n == "log2": _dom(x > 0); return m.log(x) / m.log(2)
        if n == "log1p": _dom(x > -1); return m.log(1 + x)
        if n == "expm1": _dom(abs(x) < 500); return m.expm1(x)
        if n == "sqrt": _dom(x >= 0); return m.sqrt(x)
        if n == "cbrt": return m.sign(x) * m.cbrt(abs(x))
        if n == "abs": return abs(x)
        if n in ("signum", "sign", "sgn"): _dom(x != 0); return m.sign(x)
        if n == "fsignum": return mpf(1) if x >= 0 else mpf(-1)
        if n == "floor": return m.floor(x)
        if n == "ceil": return m.ceil(x)
        if n == "round": return m.sign(x) * m.floor(abs(x) + 0.5)
        if n == "trunc": return m.sign(x) * m.floor(abs(x))
        if n == "fmod":
            _dom(a[1] != 0); y = a[1]
            return x - m.sign(x) * m.sign(y) * m.floor(abs(x) / abs(y)) * y
        if n == "fract": return x - m.sign(x) * m.floor(abs(x))
        if n == "gamma":
            _dom(not (x <= 0 and x == m.floor(x)) and abs(x) < 100); return m.gamma(x)
        if n == "lgamma":
            _dom(x > 0); return m.loggamma(x)
        if n == "sinc": return m.sin(x) / x if x else mpf(1)
        if n == "digamma": return nfn("polygamma", [mpf(0), x])
        if n == "trigamma": return nfn("polygamma", [mpf(1), x])
        if n == "tetragamma": return nfn("polygamma", [mpf(2), x])
        if n == "lambertw": _dom(x >= -1 / mp.e); return m.lambertw(x).real
        if n == "elliptic_k": _dom(abs(x) < 1); return m.ellipk(x * x)
        if n == "elliptic_e": _dom(abs(x) <= 1); return m.ellipe(x * x)
        if n == "zeta": _dom(x > 1); return m.zeta(x)
    if len(a) == 2:
        y = a[1]
        if n == "log": _dom(x > 0 and x != 1 and y > 0); return m.log(y) / m.log(x)
        if n == "atan2": _dom(x != 0 or y != 0); return m.atan2(x, y)
        if n == "polygamma":
            _dom(x >= 0 and x == m.floor(x) and y > 0); return m.psi(int(x), y)
        if n == "zeta_deriv":
            _dom(x >= 0 and x == m.floor(x) and y > 1); return m.zeta(y, 1, int(x))
        if n == "beta": _dom(x > 0 and y > 0); return m.beta(x, y)
        if n == "besselj": _dom(abs(y) < 50); return m.besselj(x, y)
        if n == "bessely": _dom(y > 0); return m.bessely(x, y)
        if n == "besseli": _dom(abs(y) < 50); return m.besseli(x, y)
        if n == "besselk": _dom(y > 0); return m.besselk(x, y)
        if n == "hermite": _dom(x >= 0 and x == m.floor(x)); return m.hermite(int(x), y)
    if n == "assoc_legendre" and len(a) == 3:
        l, mm, z = a
        _dom(l == m.floor(l) and mm == m.floor(mm) and abs(z) < 1 and l >= 0)
        return m.legenp(int(l), int(mm), z).real
    if n in ("spherical_harmonic", "ynm") and len(a) == 4:
        l, mm, th, ph = a
        _dom(l == m.floor(l) and mm == m.floor(mm) and l >= abs(mm))
        return m.sqrt((2 * l + 1) / (4 * m.pi) * m.factorial(l - mm) / m.factorial(l + mm)) * nfn("assoc_legendre", [l, mm, m.cos(th)]) * m.cos(mm * ph)
    return opaque(n, a)
