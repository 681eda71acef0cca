"""C15: built-in evaluation.  (A) every evaluation closure of the definition table, for all real arguments, against the function
of its name (numeric special functions answered by their contracts); (B) the families defined by recurrences: explicit formulas
for fixed orders (bounded) and the loop contracts for any order; (C) labelled bounded: the real functions against mpmath."""
import math, random
from fractions import Fraction
import mpmath
from mpmath import mpf
from .. import term as tm, mir, sym, models, den, harness as H, replay as R, rec, par, bnd as BND_
from ..term import num, mk, var, fn, ZERO, ONE, TWO, PI
from ..sym import Ex, Sym, Ptr, Cell, VecV, Adt, Tup
from . import c02
from .c06 import back_edges, BackEdge
M = "symb_anafis::math::"
# contracts of the numeric functions in src/math: name of the function, may decline
NUM = {"eval_erf": ("erf", 0), "eval_erfc": ("erfc", 0), "eval_gamma": ("gamma", 1), "eval_digamma": ("digamma", 1), "eval_trigamma": ("trigamma", 1), "eval_tetragamma": ("tetragamma", 1),
       "eval_polygamma": ("polygamma", 1), "eval_zeta": ("zeta", 1), "eval_zeta_deriv": ("zeta_deriv", 1), "eval_lambert_w": ("lambertw", 1), "bessel_j": ("besselj", 1), "bessel_y": ("bessely", 1),
       "bessel_i": ("besseli", 0), "bessel_k": ("besselk", 1), "eval_elliptic_k": ("elliptic_k", 1), "eval_elliptic_e": ("elliptic_e", 1), "eval_hermite": ("hermite", 1), "eval_assoc_legendre": ("assoc_legendre", 1),
       "eval_spherical_harmonic": ("spherical_harmonic", 1), "eval_exp_polar": ("exp_polar", 0)}
INNER = {"bessel_j0": (ZERO, "besselj"), "bessel_j1": (ONE, "besselj"), "bessel_y0": (ZERO, "bessely"), "bessel_y1": (ONE, "bessely"), "bessel_k0": (ZERO, "besselk"), "bessel_k1": (ONE, "besselk"), "bessel_i0": (ZERO, "besseli"), "bessel_i1": (ONE, "besseli")}
def contract(nm, opt):
    def h(ex, f, a):
        ex.ghost.setdefault("called", []).append(nm)
        t = fn(nm, *[ex.nf(ex.num_of(x)) for x in a])
        if not opt: return t
        if ex.choose(2, "defined " + nm) == 1: ex.ghost["declined"] = nm; return models.none(ex)
        return models.some(ex, t)
    return h
def contracts(p, only=None):
    c = dict(den.base_contracts(p))
    for f in p.fns:
        b = f["name"].split("::<")[0].split("::")[-1]
        if not f["name"].startswith(M) or "dual" in f["name"]: continue
        if only is None and b in NUM: h = contract(*NUM[b])
        elif only is not None and b in only: h = only[b]
        else: continue
        c[f["name"]] = h; c[f["def"]] = h
    return c
_ST = None
# ------------------------------------------------------------------ A. closures
SKIP = {"besselj": 1, "bessely": 1, "besseli": 1, "besselk": 1, "polygamma": 1, "zeta_deriv": 1, "hermite": 1, "assoc_legendre": 2, "spherical_harmonic": 2, "ynm": 2}
def spec(nm, a):
    k = SKIP.get(nm, 0)
    a = [fn("round", x) if i < k else x for i, x in enumerate(a)]
    if nm == "ynm": nm = "spherical_harmonic"
    if nm == "signum": nm = "fsignum"
    if nm == "acot": return tm.sub(tm.div(PI, TWO), fn("atan", a[0]))
    if nm == "acoth": return tm.mul(num(Fraction(1, 2)), fn("ln", tm.div(tm.add(a[0], ONE), tm.sub(a[0], ONE))))
    return fn(nm, *a)
def reciprocal_atan(ex, a, t):
    """atan(1/a) is pi/2 - atan a for a > 0 and -pi/2 - atan a for a < 0"""
    pos = ex.decide(ex.cmp("lt", ZERO, a))
    if pos is None: return t
    r = tm.sub(tm.div(PI if pos else tm.neg(PI), TWO), fn("atan", a)); memo = {}
    def go(u):
        if u in memo: return memo[u]
        v = r if u.op == "fn" and u.a[0] == "atan" and tm.prove_eq(u.a[1], tm.div(ONE, a)) is True else (mk(u.op, *[go(x) if isinstance(x, tm.T) else x for x in u.a]) if any(isinstance(x, tm.T) for x in u.a) else u)
        memo[u] = v; return v
    return go(t)
def w_eval(i):
    p, tab = _ST; nm, lo, hi, ev, _ = tab[i]; sym.EXEC.clear(); out = []
    cs = contracts(p)
    for k in range(lo, hi + 1):
        name = f"{nm}/{k}.eval"; A = [var("abcdef"[j]) for j in range(k)]
        def run(ex): return ex.invoke_ptr(models.cellof(ev), [Ptr(Cell(VecV(list(A))))])
        def judge(ex, v):
            a = ex.need_adt(v); t = spec(nm, A)
            if ex.prog.types[a.ty]["v"][a.var]["n"] == "None":
                if ex.ghost.get("declined"): return H.PROVED, ""
                s, w, wt = H.judge(ex, t, tm.add(t, ONE), random.Random(5))          # declines: the function must not exist there
                if s == H.REFUTED and not w.startswith("right side undefined"): return H.REFUTED, f"declines where {tm.show(t)} exists"
                return H.PROVED, ""
            if nm == "zeta" and ex.ghost.get("called") == ["zeta_deriv"]: pass
            g = ex.num_of(a.f[0])
            if nm == "acot": g = reciprocal_atan(ex, A[0], g)
            s, w, wt = H.judge(ex, t, g, random.Random(7))
            return s, (w if s == H.PROVED else f"{w}: {tm.show(ex.num_of(a.f[0]))[:160]} should be {tm.show(t)[:120]}")
        st, why, _ = rec.drive(None, p, cs, name, run, judge, opts={"max_dec": 40, "nopanic": lambda ex, e: True})
        out.append((name, st, why, None, list(sym.EXEC)))
    return out
# ------------------------------------------------------------------ B1. fixed orders against explicit formulas
def hermite(n, x):
    return tm.addn([tm.mul(num(Fraction((-1) ** m * math.factorial(n) * 2 ** (n - 2 * m), math.factorial(m) * math.factorial(n - 2 * m))), tm.powt(x, num(n - 2 * m))) for m in range(n // 2 + 1)])
def legendre(l, m, x):
    """(-1)^m (1 - x^2)^(m/2) d^m/dx^m P_l(x); negative order by the factorial relation"""
    if m < 0: return tm.mul(num(Fraction((-1) ** (-m) * math.factorial(l + m), math.factorial(l - m))), legendre(l, -m, x))
    s = ZERO
    for k in range(l // 2 + 1):
        e = l - 2 * k
        if e < m: continue
        c = Fraction((-1) ** k * math.factorial(2 * l - 2 * k), 2 ** l * math.factorial(k) * math.factorial(l - k) * math.factorial(l - 2 * k)) * Fraction(math.factorial(e), math.factorial(e - m))
        s = tm.add(s, tm.mul(num(c), tm.powt(x, num(e - m)) if e > m else ONE))
    w = tm.powt(tm.sub(ONE, tm.sq(x)), num(m // 2)) if m >= 2 else ONE
    if m % 2: w = tm.mul(w, tm.sqrt(tm.sub(ONE, tm.sq(x))))
    return tm.muln([num((-1) ** m), w, s])
def bessel(kind, n, x, f0, f1):
    a = abs(n); p, c = f0, f1
    if a == 0: return f0
    for k in range(1, a):
        s = tm.mul(tm.div(num(2 * k), x), c)
        p, c = c, (tm.sub(s, p) if kind in "jy" else (tm.add(p, s) if kind == "k" else tm.sub(p, s)))
    return tm.neg(c) if n < 0 and a % 2 and kind in "jy" else c
def zero_floor(t): return t
def w_order(a):
    fam, ords, what = a; p, _ = _ST; sym.EXEC.clear(); x = var("x")
    short = {"hermite": "polynomials::eval_hermite", "assoc_legendre": "polynomials::eval_assoc_legendre", "spherical_harmonic": "polynomials::eval_spherical_harmonic",
             "besselj_forward": "bessel::bessel_j_forward", "bessely": "bessel::bessel_y", "besselk": "bessel::bessel_k", "besselj": "bessel::bessel_j", "besseli": "bessel::bessel_i"}[fam]
    f = p.fn(M + short + "::<f64>"); name = f"{fam}({', '.join(map(str, ords))}, x)"
    if f is None: return [(name, H.UNDECIDED, "not found", "orders as listed", [])]
    only = {}
    def ic(b):
        k, fam_ = INNER[b]
        return lambda ex, f, a: fn(fam_, k, ex.nf(ex.num_of(a[0])))
    for b in INNER: only[b] = ic(b)
    def pick(ex, f, a): ex.ghost["regime"] = f["name"]; return models.some(ex, fn("besselj", ex.nf(ex.num_of(a[0])), ex.nf(ex.num_of(a[1]))))
    if fam == "besselj": only["bessel_j_forward"] = only["bessel_j_miller"] = pick
    if fam == "spherical_harmonic": only["eval_assoc_legendre"] = contract("assoc_legendre", 1)
    cs = contracts(p, only)
    def run(ex):
        args = [num(o) for o in ords] + ([x] if fam != "spherical_harmonic" else [x, var("y")])
        return ex.run(f, args)
    def judge(ex, v):
        rnd = random.Random(3)
        if isinstance(v, (Adt,)) or not isinstance(v, tm.T):
            a = ex.need_adt(v); none = ex.prog.types[a.ty]["v"][a.var]["n"] == "None"
        else: a = None; none = False
        n = ords[0]
        valid = n >= 0 if fam == "hermite" else (n >= 0 and abs(ords[1]) <= n if fam in ("assoc_legendre", "spherical_harmonic") else True)
        if none:
            if not valid or ex.ghost.get("declined"): return H.PROVED, ""
            t = {"assoc_legendre": lambda: tm.sqrt(tm.sub(ONE, tm.sq(x))), "bessely": lambda: fn("ln", x), "besselk": lambda: fn("ln", x)}.get(fam, lambda: x)()
            s, w, wt = H.judge(ex, t, tm.add(t, ONE), rnd)
            return (H.REFUTED, "declines a valid argument") if s == H.REFUTED and not w.startswith("right side undefined") else (H.PROVED, "")
        if not valid: return H.REFUTED, "an invalid order gets a value"
        if fam == "hermite": t = hermite(n, x)
        elif fam == "assoc_legendre": t = legendre(n, ords[1], x)
        elif fam == "spherical_harmonic":
            l, m = ords; y = var("y")
            t = tm.muln([tm.sqrt(tm.mul(num(Fraction((2 * l + 1) * math.factorial(l - m), 4 * math.factorial(l + m))), tm.powt(PI, num(-1)))), fn("assoc_legendre", num(l), num(m), fn("cos", x)), fn("cos", tm.mul(num(m), y))])
        elif fam == "besselj":
            g = ex.num_of(a.f[0])
            if not ex.ghost.get("regime"): t = ONE if n == 0 else ZERO; return H.judge(ex, t, g, rnd)[:2] if ex.decide(ex.cmp("eq", fn("abs", x), ZERO)) is not False else (H.UNDECIDED, "constant away from 0")
            t = fn("besselj", num(n), x)
        else:
            kind = fam[6]; t = bessel(kind, n, x, fn("bessel" + kind, ZERO, x), fn("bessel" + kind, ONE, x))
        g = ex.num_of(a.f[0]) if a is not None else ex.num_of(v)
        s, w, wt = H.judge(ex, t, g, rnd)
        return s, (w if s == H.PROVED else f"{w}: {tm.show(g)[:160]} should be {tm.show(t)[:120]}")
    st, why, _ = rec.drive(None, p, cs, name, run, judge, opts={"max_dec": 60, "max_loop": 60, "fork_unwrap": True, "nopanic": lambda ex, e: True, "ignore_panic": overflow})
    return [(name, st, why, "orders as listed", list(sym.EXEC))]
TASKS = {"order": w_order}
def work(it): return TASKS[it[0]](it[1]) if it[0] in TASKS else w_eval(it[1])
# ------------------------------------------------------------------ B2. loops: one turn from an arbitrary state, any order
class Done(Exception): pass
def V(s): return var("\0" + s)
def lm(fam):
    """degree and |order| of the Legendre families: degree = order + 2 + J with order = M + 1 (or 0)"""
    m = ZERO if fam == "legendre0" else tm.add(var("M"), ONE)
    return tm.add(tm.add(m, TWO), var("J")), m
def loops_of(fam):
    """per loop, in the order they are entered: counter start, state locals with their entry values, the contract of one turn, and
    what the counter is when the loop ends"""
    x, P, Q, K, T = var("x"), V("P"), V("Q"), V("K"), V("T")
    three = lambda sgn: lambda k: {"c": tm.add(tm.mul(tm.div(tm.mul(TWO, k), x), Q), tm.neg(P) if sgn < 0 else P), "p": Q, "t": tm.add(k, ONE)}
    if fam == "hermite": return [dict(start=ONE, state={"h0": ("p", P), "h1": ("c", Q)}, entry={"p": ONE, "c": tm.mul(TWO, x)}, step=lambda k: {"c": tm.sub(tm.muln([TWO, x, Q]), tm.muln([TWO, k, P])), "p": Q})]
    if fam in ("besselj_forward", "bessely", "besselk"):
        b = fam[6]; pc = {"j": ("jp", "jc"), "y": ("yp", "yc"), "k": ("kp", "kc")}[b]
        return [dict(start=ONE, state={pc[0]: ("p", P), pc[1]: ("c", Q), "k_t": ("t", None)}, entry={"p": fn("bessel" + b, ZERO, x), "c": fn("bessel" + b, ONE, x), "t": ONE}, counter="t", step=three(1 if b == "k" else -1))]
    if fam in ("legendre", "legendre0"):
        L, m = lm(fam); w = tm.sqrt(tm.sub(ONE, tm.sq(x))); A, B = V("A"), V("B")
        ph = dict(start=ONE, end=tm.add(m, ONE), state={"pmm": ("c", Q), "fact": ("t", lambda k: tm.sub(tm.mul(TWO, k), ONE))}, entry={"c": ONE, "t": ONE}, step=lambda k: {"c": tm.neg(tm.muln([tm.sub(tm.mul(TWO, k), ONE), w, Q])), "t": tm.add(tm.mul(TWO, k), ONE)})
        pmm = Q if fam == "legendre" else ONE
        nx = lambda k: tm.div(tm.sub(tm.muln([tm.sub(tm.mul(TWO, k), ONE), x, B]), tm.mul(tm.sub(tm.add(k, m), ONE), A)), tm.sub(k, m))
        dg = dict(start=tm.add(m, TWO), end=tm.add(L, ONE), state={"pmm_prev": ("p", A), "pmm_curr": ("c", B), "pll": ("l", B)}, entry={"p": pmm, "c": tm.muln([x, tm.add(tm.mul(TWO, m), ONE), pmm])}, step=lambda k: {"p": B, "c": nx(k), "l": nx(k)}, result=B)
        return [ph, dg] if fam == "legendre" else [dg]
    if fam == "legendre-":
        L, m = lm(fam)
        return [dict(start=tm.add(tm.sub(L, m), ONE), end=tm.add(tm.add(L, m), ONE), state={"scale": ("c", Q)}, entry={"c": ("sign", m)}, step=lambda k: {"c": tm.div(Q, k)}, result=tm.mul(Q, fn("assoc_legendre", L, m, x)))]
    if fam in ("harmonic", "harmonic-"):
        L, m = lm(fam); A, B = V("A"), V("B"); mm = m if fam == "harmonic" else tm.neg(m)
        r = tm.muln([tm.sqrt(tm.div(tm.mul(tm.add(tm.mul(TWO, L), ONE), A), tm.muln([num(4), PI, B]))), fn("assoc_legendre", L, mm, fn("cos", x)), fn("cos", tm.mul(mm, var("y")))])
        return [dict(start=ONE, end=tm.add(tm.sub(L, mm), ONE), state={"fact_lm": ("c", A)}, entry={"c": ONE}, step=lambda k: {"c": tm.mul(A, k)}),
                dict(start=ONE, end=tm.add(tm.add(L, mm), ONE), state={"fact_lplusm": ("c", B)}, entry={"c": ONE}, step=lambda k: {"c": tm.mul(B, k)}, result=r)]
    if fam == "besseli":
        R_, Cc = V("R"), V("C")
        return [dict(rev=True, state={"i_next": ("p", P), "i_curr": ("c", Q), "result": ("r", R_), "computed_i0": ("z", Cc), "k_t": ("t", lambda k: k)}, entry={"p": ZERO, "r": ZERO},
                     step=lambda k: {"c": tm.add(tm.mul(tm.div(tm.mul(TWO, k), x), Q), P), "p": Q, "t": tm.sub(k, ONE), "r": ("at", "n", Q, R_), "z": ("at", 0, Q, Cc)})]
    if fam == "besselj_miller":
        R_, S = V("R"), V("S")
        return [dict(rev=True, state={"j_next": ("p", P), "j_curr": ("c", Q), "result": ("r", R_), "sum": ("s", S), "compensation": ("o", lambda k: ZERO), "k_t": ("t", lambda k: k)}, entry={"p": ZERO, "r": ZERO, "s": ZERO, "o": ZERO},
                     step=lambda k: {"c": tm.sub(tm.mul(tm.div(tm.mul(TWO, k), x), Q), P), "p": Q, "t": tm.sub(k, ONE), "o": ZERO, "r": ("at", "n", Q, R_), "s": ("even", S, Q)})]
FAM = {"hermite": "polynomials::eval_hermite", "legendre": "polynomials::eval_assoc_legendre", "legendre0": "polynomials::eval_assoc_legendre", "legendre-": "polynomials::eval_assoc_legendre",
       "harmonic": "polynomials::eval_spherical_harmonic", "harmonic-": "polynomials::eval_spherical_harmonic", "besselj_forward": "bessel::bessel_j_forward", "besselj_miller": "bessel::bessel_j_miller",
       "bessely": "bessel::bessel_y", "besselk": "bessel::bessel_k", "besseli": "bessel::bessel_i"}
def w_loop(a):
    fam, neg = a; p, _ = _ST; sym.EXEC.clear(); x = var("x"); name = f"{fam}, any order{', negative' if neg else ''}"
    f = p.fn(M + FAM[fam] + "::<f64>"); sp = loops_of(fam)
    if f is None: return [(name, H.UNDECIDED, "not found", None, [])]
    b = f["body"]; heads = back_edges(b); vs = {}
    for n, l in b["vars"]: vs.setdefault(n, l)
    miss = [v for s in sp for v in s["state"] if v not in vs]
    if miss or len(heads) < len(sp): return [(name, H.UNDECIDED, f"loop shape not recognised ({miss} not found)", None, [])]
    only = {bb: (lambda ex, f, a, k=k, fm=fm: fn(fm, k, ex.nf(ex.num_of(a[0])))) for bb, (k, fm) in INNER.items()}
    if fam in ("legendre-", "harmonic", "harmonic-"):
        only["eval_assoc_legendre"] = contract("assoc_legendre", 1)
    cs = contracts(p, only); N = var("N"); n_abs = tm.add(N, TWO)
    rnd = random.Random(11)
    def same(ex, u, v):
        s, w, _ = H.judge(ex, u, v, rnd); return s == H.PROVED
    def ends(ex, i):
        e = sp[i].get("end", n_abs)
        if not sp[i].get("rev") and not same(ex, e, ex.ghost["kend"][i]): ex.ghost["refuted"] = f"the loop ends at {tm.show(ex.ghost['kend'][i])}, not at {tm.show(e)}"
    def hook(ex, fr, bb):
        if fr["body"] is not b or bb not in heads: return
        L = fr["L"]; g = ex.ghost; od = g.setdefault("order", [])
        new = bb not in od
        if new: od.append(bb)
        i_ = od.index(bb)
        if i_ >= len(sp): g["bad"] = "a loop more than expected"; raise Done()
        s = sp[i_]; K = V(f"K{i_}")
        its = [(i, c.v) for i, c in enumerate(L) if c is not None and isinstance(getattr(c, "v", None), (models.RangeIter, sym.RevIter))] if not isinstance(L, dict) else [(i, c.v) for i, c in L.items() if isinstance(getattr(c, "v", None), (models.RangeIter, sym.RevIter))]
        if not its: g["bad"] = "no counter found"; raise Done()
        it = its[-1][1]; rg = it.it if isinstance(it, sym.RevIter) else it
        val = lambda n: ex.num_of(L[vs[n]].v)
        if new:
            g["in"] = True
            if g.get("kend") and i_: ends(ex, i_ - 1)
            if g.get("refuted"): raise Done()
            if bool(s.get("rev")) != isinstance(it, sym.RevIter): g["bad"] = "counter direction not recognised"; raise Done()
            ent = dict(s["entry"])
            if s.get("rev"):
                hi = ex.num_of(rg.b if rg.incl else tm.sub(ex.num_of(rg.b), ONE))
                if ex.num_of(rg.a) is not ZERO: g["refuted"] = "the recurrence does not go down to 0"; raise Done()
                ent["t"] = hi; g["hi"] = hi
            elif not same(ex, s["start"], ex.num_of(rg.a)): g["refuted"] = f"the counter starts at {tm.show(ex.num_of(rg.a))}"; raise Done()
            for n, (r, v) in s["state"].items():
                if isinstance(ent.get(r), tuple):
                    o = ex.decide(ex.binop("Eq", ex.binop("Rem", ent[r][1], TWO, None), ZERO, None))
                    if o is None: g["why"] = f"sign before the loop not decided"; raise Done()
                    ent[r] = ONE if o else num(-1)
                if r in ent and not same(ex, ent[r], val(n)): g["refuted"] = f"{n} is {tm.show(val(n))[:120]} before the loop, not {tm.show(ent[r])[:120]}"; raise Done()
            g.setdefault("kend", {})[i_] = ex.num_of(rg.b) if not rg.incl else tm.add(ex.num_of(rg.b), ONE)
            ex.ints.add(K)
            if s.get("rev"): rg.b = K if rg.incl else tm.add(K, ONE)
            else: ex.nn.add(K); rg.a = K
            for n, (r, v) in s["state"].items():
                L[vs[n]].v = v(K) if callable(v) else (K if v is None else v)
            return
        # second time round: the state after one turn
        st = s["step"](K); kk = ex.num_of(rg.b if rg.incl else tm.sub(ex.num_of(rg.b), ONE)) if s.get("rev") else ex.num_of(rg.a)
        if not same(ex, tm.sub(K, ONE) if s.get("rev") else tm.add(K, ONE), kk): g["refuted"] = "the counter does not move by one"; raise Done()
        for n, (r, v) in s["state"].items():
            w = st[r]
            if isinstance(w, tuple):
                if w[0] == "at":
                    c = ex.decide(ex.binop("Eq", K, n_abs if w[1] == "n" else ZERO, None)); w = None if c is None else (w[2] if c else w[3])
                    if c is None and (same(ex, st[r][2], val(n)) or same(ex, st[r][3], val(n))): g["why"] = f"{n}: which case applies is not known on the path"; raise Done()
                else:
                    z = ex.decide(ex.binop("Eq", K, ZERO, None)); e = ex.decide(ex.binop("Eq", ex.binop("Rem", K, TWO, None), ZERO, None))
                    w = tm.add(w[1], w[2]) if z else (None if z is None or e is None else (tm.add(w[1], tm.mul(TWO, w[2])) if e else w[1]))
                if w is None: g["why"] = f"{n}: case not decided on the path"; raise Done()
            if not same(ex, w, val(n)): g["refuted"] = f"after one turn {n} is {tm.show(ex.nf(val(n)))[:160]}, not {tm.show(w)[:120]}"; raise Done()
        raise Done()
    def run(ex):
        for z in (N, var("M"), var("J")): ex.ints.add(z); ex.nn.add(z)
        if fam.startswith(("legendre", "harmonic")):
            L, m = lm(fam); m = tm.neg(m) if fam.endswith("-") else m
            try: return ex.run(f, [L, m, x] + ([var("y")] if fam.startswith("harmonic") else []))
            except Done: return "turn"
        o = tm.neg(n_abs) if neg else n_abs
        ex.ghost["o"] = o
        try:
            return ex.run(f, [o, x])
        except Done: return "turn"
    def judge(ex, v):
        g = ex.ghost
        if g.get("bad"): return H.UNDECIDED, g["bad"]
        if g.get("refuted"): return H.REFUTED, g["refuted"]
        if g.get("why"): return H.UNDECIDED, g["why"]
        if isinstance(v, str): return H.PROVED, ""
        if isinstance(v, tm.T): r = v
        else:
            a = ex.need_adt(v)
            if ex.prog.types[a.ty]["v"][a.var]["n"] == "None": return (H.PROVED, "") if not g.get("in") or g.get("declined") else (H.UNDECIDED, "declines after the loop")
            r = ex.num_of(a.f[0])
        if not g.get("in"): return (H.PROVED, "") if fam in ("besseli",) and ex.decide(ex.cmp("eq", fn("abs", x), ZERO)) is not False else (H.UNDECIDED, f"value without the loop: {tm.show(r)[:80]}")
        s = sp[0]; Q, R_, Cc, S = V("Q"), V("R"), V("C"), V("S")
        if s.get("rev"):
            t = tm.div(tm.mul(R_, fn("besseli", ZERO, x)), Cc) if fam == "besseli" else tm.div(R_, S)
        else:
            if len(g["order"]) != len(sp): return H.UNDECIDED, f"{len(g['order'])} loops entered, {len(sp)} expected"
            ends(ex, len(sp) - 1)
            if g.get("refuted"): return H.REFUTED, g["refuted"]
            t = sp[-1].get("result", Q)
        if fam in ("besselj_forward", "besselj_miller", "bessely") and neg:
            odd = ex.decide(ex.binop("Eq", ex.binop("Rem", n_abs, TWO, None), ONE, None))
            if odd is None: return H.UNDECIDED, "parity not decided on the path"
            if odd: t = tm.neg(t)
        s_, w, _ = H.judge(ex, t, r, rnd)
        return s_, (w if s_ == H.PROVED else f"{w}: {tm.show(r)[:120]} should be {tm.show(t)[:120]}")
    st, why, _ = rec.drive(None, p, cs, name, run, judge, opts={"max_dec": 60, "max_loop": 60, "fork_unwrap": True, "at_block": hook, "ignore_panic": overflow})
    return [(name, st, why, None, list(sym.EXEC))]
TASKS["loop"] = w_loop
def overflow(e): return "overflow" in e.lower()          # orders are assumed to be far from the limits of i32
# ------------------------------------------------------------------ B3. argument shifts, reflection, means: while loops
B2 = [Fraction(1, 6), Fraction(-1, 30), Fraction(1, 42), Fraction(-1, 30), Fraction(5, 66)]
def w_shift(a):
    fam, n = a; p, _ = _ST; sym.EXEC.clear(); x = var("x"); R_, X, A, B, W = V("R"), V("X"), V("A"), V("B"), V("W")
    pw = lambda k: tm.powt(X, num(k)); inv = lambda c, k: tm.mul(num(c), tm.powt(X, num(-k)))
    accept = None; half = num(Fraction(1, 2)); bound = None; cond = None
    if fam == "digamma":
        name, fnm = "digamma shift and tail", "special::eval_digamma"; state = {"result": ("r", R_), "xv": ("x", X)}; entry = {"r": ZERO, "x": x}; step = {"r": tm.sub(R_, tm.div(ONE, X)), "x": tm.add(X, ONE)}
        out = [tm.addn([R_, fn("ln", X), inv(Fraction(-1, 2), 1), inv(Fraction(-1, 12), 2), inv(Fraction(1, 120), 4), inv(Fraction(-1, 252), 6)])]
        refl = tm.sub(fn("digamma", tm.sub(ONE, x)), tm.mul(PI, tm.div(fn("cos", tm.mul(PI, x)), fn("sin", tm.mul(PI, x)))))
    elif fam == "trigamma":
        name, fnm = "trigamma shift and tail", "special::eval_trigamma"; state = {"r": ("r", R_), "xv": ("x", X)}; entry = {"r": ZERO, "x": x}; step = {"r": tm.add(R_, inv(1, 2)), "x": tm.add(X, ONE)}
        out = [tm.addn([R_, inv(1, 1), inv(Fraction(1, 2), 2), inv(Fraction(1, 6), 3), inv(Fraction(-1, 30), 5), inv(Fraction(1, 42), 7)])]; refl = None
    elif fam == "polygamma":
        name, fnm = f"polygamma({n}, x) shift and tail", "special::eval_polygamma"; state = {"r": ("r", R_), "xv": ("x", X)}; entry = {"r": ZERO, "x": x}; f_ = math.factorial
        step = {"r": tm.add(R_, inv((-1) ** (n + 1) * f_(n), n + 1)), "x": tm.add(X, ONE)}; refl = None; bound = f"order {n}"
        out = []
        for cut in (5, 4, 3, 2, 1, 0):
            s = [inv(f_(n - 1), n), inv(Fraction(f_(n), 2), n + 1)] + [inv(B2[k - 1] * f_(2 * k + n - 1) / f_(2 * k), 2 * k + n) for k in range(1, cut + 1)]
            out.append(tm.add(R_, tm.mul(num((-1) ** (n + 1)), tm.addn(s))))
    elif fam == "elliptic_k":
        name, fnm = "elliptic_k mean", "elliptic::eval_elliptic_k"; state = {"a": ("a", A), "b": ("b", B)}; entry = {"a": ONE, "b": tm.sqrt(tm.sub(ONE, tm.sq(x)))}; refl = None
        step = {"a": tm.div(tm.add(A, B), TWO), "b": tm.sqrt(tm.mul(A, B))}; out = [tm.div(PI, tm.mul(TWO, A)), tm.div(PI, tm.add(A, B))]
    elif fam == "elliptic_e":
        name, fnm = "elliptic_e mean", "elliptic::eval_elliptic_e"; state = {"a": ("a", A), "b": ("b", B), "sum": ("s", R_), "pow2": ("w", W)}; refl = None
        entry = {"a": ONE, "b": tm.sqrt(tm.sub(ONE, tm.sq(x))), "s": tm.sub(ONE, tm.div(tm.sq(x), TWO)), "w": ONE}
        c = tm.div(tm.sub(A, B), TWO); S2 = tm.sub(R_, tm.mul(W, tm.sq(c)))
        step = {"a": tm.div(tm.add(A, B), TWO), "b": tm.sqrt(tm.mul(A, B)), "s": S2, "w": tm.mul(TWO, W)}
        out = [tm.mul(tm.div(PI, tm.mul(TWO, A)), R_), tm.mul(tm.div(PI, tm.add(A, B)), S2)]
    f = p.fn(M + fnm + "::<f64>")
    if f is None: return [(name, H.UNDECIDED, "not found", bound, [])]
    b = f["body"]; heads = back_edges(b); vs = {}
    for v_, l in b["vars"]: vs.setdefault(v_, l)
    if any(v_ not in vs for v_ in state): return [(name, H.UNDECIDED, "loop shape not recognised", bound, [])]
    rnd = random.Random(17)
    same = lambda ex, u, v: H.judge(ex, u, v, rnd)[0] == H.PROVED
    cs = contracts(p, {"eval_digamma": contract("digamma", 1), "eval_trigamma": contract("trigamma", 1)})
    def isreal(ex, L): return all(isinstance(getattr(L[vs[v_]], "v", None), (tm.T, int, Fraction)) or isinstance(getattr(L[vs[v_]], "v", None), tm.T) for v_ in state)
    def hook(ex, fr, bb):
        if fr["body"] is not b or bb not in heads: return
        L = fr["L"]; g = ex.ghost
        if g.get("in") is not None and bb != g["in"]: return
        if not all(isinstance(getattr(L[vs[v_]], "v", None), tm.T) for v_ in state): return
        if g.get("in") is None and not touches(b, bb, vs, state): return
        val = lambda v_: ex.num_of(L[vs[v_]].v)
        if g.get("in") is None:
            g["in"] = bb
            for v_, (r, h) in state.items():
                if not same(ex, entry[r], val(v_)): g["refuted"] = f"{v_} is {tm.show(val(v_))[:100]} before the loop, not {tm.show(entry[r])[:100]}"; raise Done()
            for v_, (r, h) in state.items(): L[vs[v_]].v = h
            if fam.startswith("elliptic"):
                for z in (A, B): ex.nn.add(z)
                for c in (L.values() if isinstance(L, dict) else L):
                    it = getattr(c, "v", None)
                    if isinstance(it, models.RangeIter): it.a = V("K"); ex.ints.add(V("K")); ex.nn.add(V("K"))
            return
        for v_, (r, h) in state.items():
            if not same(ex, step[r], val(v_)): g["refuted"] = f"after one turn {v_} is {tm.show(ex.nf(val(v_)))[:140]}, not {tm.show(step[r])[:120]}"; raise Done()
        raise Done()
    def run(ex):
        try: return ex.run(f, ([num(n)] if fam == "polygamma" else []) + [x])
        except Done: return "turn"
    def judge(ex, v):
        g = ex.ghost
        if g.get("refuted"): return H.REFUTED, g["refuted"]
        if isinstance(v, str): return H.PROVED, ""
        a = ex.need_adt(v)
        if ex.prog.types[a.ty]["v"][a.var]["n"] == "None":
            if g.get("declined"): return H.PROVED, ""
            if g.get("in") is not None: return H.UNDECIDED, "declines after the loop"
            s, w, _ = H.judge(ex, fn(fam, *([num(n)] if n is not None else []), x), tm.add(fn(fam, *([num(n)] if n is not None else []), x), ONE), rnd)
            return (H.REFUTED, "declines where the function exists") if s == H.REFUTED and not w.startswith("right side undefined") else (H.PROVED, "")
        t = a.f[0]
        if g.get("in") is None:
            if fam.startswith("elliptic"): return H.PROVED, ""          # boundary |k| >= 1: values in the numeric comparison
            if refl is None: return H.UNDECIDED, "value without the loop"
            s, w, _ = H.judge(ex, refl, ex.num_of(t), rnd); return s, w
        why = ""
        for o in out:
            s, w, _ = H.judge(ex, o, ex.num_of(t), rnd)
            if s == H.PROVED: return s, w
            why = why or f"{w}: {tm.show(ex.num_of(t))[:160]} should be {tm.show(o)[:160]}"
        return H.UNDECIDED if s != H.REFUTED else s, why
    st, why, _ = rec.drive(None, p, cs, name, run, judge, opts={"max_dec": 60, "max_loop": 60, "fork_unwrap": True, "at_block": hook, "ignore_panic": overflow})
    return [(name, st, why, bound, list(sym.EXEC))]
def touches(b, head, vs, state):
    """does the loop at this head assign one of the state variables?"""
    succ = {}
    for i, (_, t, _l) in enumerate(b["blocks"]):
        succ[i] = [z for z in ([t[1]] if t[0] == "goto" else [y[1] for y in t[3]] + [t[4]] if t[0] == "switch" else [t[4]] if t[0] in ("call", "assert") else [t[2]] if t[0] == "drop" else []) if isinstance(z, int)]
    pred = {}
    for i, s in succ.items():
        for z in s: pred.setdefault(z, []).append(i)
    reach = set(); w = [head]
    while w:
        z = w.pop()
        for y in succ[z]:
            if y not in reach: reach.add(y); w.append(y)
    back = set(); w = [head]
    while w:
        z = w.pop()
        for y in pred.get(z, []):
            if y not in back and y in reach: back.add(y); w.append(y)
    loop = reach & back | {head}
    if head not in reach: return False
    done = set()
    for i in loop:
        for q in b["blocks"][i][0]:
            if q[0] == "=":
                done.add(q[1][0])
                if q[2][0] == "ref" and q[2][1] is True: done.add(q[2][2][0])
        t = b["blocks"][i][1]
        if t[0] == "call": done.add(t[3][0])
    return {vs[k] for k in state} <= done
TASKS["shift"] = w_shift
def w_gamma(a):
    p, _ = _ST; sym.EXEC.clear(); x = var("x"); name = "gamma reflection and poles"; f = p.fn(M + "special::eval_gamma::<f64>"); rnd = random.Random(19)
    if f is None: return [(name, H.UNDECIDED, "not found", None, [])]
    cs = contracts(p, {"eval_gamma": contract("gamma", 1)})
    def judge(ex, v):
        a = ex.need_adt(v)
        if ex.prog.types[a.ty]["v"][a.var]["n"] == "None":
            if ex.ghost.get("declined"): return H.PROVED, ""
            s, w, _ = H.judge(ex, fn("gamma", x), tm.add(fn("gamma", x), ONE), rnd)
            return (H.REFUTED, "declines where the function exists") if s == H.REFUTED and not w.startswith("right side undefined") else (H.PROVED, "")
        if not ex.ghost.get("called"): return H.PROVED, ""              # the Lanczos sum: numeric comparison only
        s, w, _ = H.judge(ex, tm.div(PI, tm.mul(fn("sin", tm.mul(PI, x)), fn("gamma", tm.sub(ONE, x)))), ex.num_of(a.f[0]), rnd); return s, w
    st, why, _ = rec.drive(None, p, cs, name, lambda ex: ex.run(f, [x]), judge, opts={"max_dec": 60, "max_loop": 60, "fork_unwrap": True, "nopanic": lambda ex, e: True})
    return [(name, st, why, None, list(sym.EXEC))]
TASKS["gamma"] = w_gamma
# ------------------------------------------------------------------ B4. the registry
def w_registry(a):
    p, tab = _ST; sym.EXEC.clear(); out = []
    f = p.fn("symb_anafis::functions::registry::init_registry"); name = "registry maps every definition to the identity of its own name"
    if f is None: out.append((name, H.UNDECIDED, "not found", None, []))
    else:
        cs = dict(den.base_contracts(p))
        cs["symb_anafis::core::symbol::registry::symb_builtin"] = lambda ex, f, a: ex.known_symbol(models.S(ex, a[0]))
        def judge(ex, v):
            m = ex.deref_all(v); names = {}
            if not isinstance(m, sym.MapV): return H.UNDECIDED, f"result {m}"
            for k, d in m.kv:
                d = ex.need_adt(ex.deref_all(d)); fl = [n for n, _ in p.types[d.ty]["v"][0]["f"]]; nm = d.f[fl.index("name")]
                nm = nm if isinstance(nm, str) else models.S(ex, nm); k = ex.deref_all(k)
                kn = ex.sym_name(k.s)[0] if isinstance(k, sym.IdV) else None
                if kn != nm: return H.REFUTED, f"{nm} is stored under another identity"
                names[nm] = names.get(nm, 0) + 1
            want = [t[0] for t in tab]
            if sorted(names) != sorted(set(want)) or len(want) != len(set(want)): return H.REFUTED, f"definitions missing or twice: {set(want) ^ set(names)} {[w for w in want if want.count(w) > 1]}"
            return H.PROVED, ""
        st, why, _ = rec.drive(None, p, cs, name, lambda ex: ex.run(f, []), judge, opts={"max_dec": 200, "max_loop": 400})
        out.append((name, st, why, None, list(sym.EXEC)))
    sym.EXEC.clear(); f = p.fn("symb_anafis::functions::registry::FunctionDefinition::validate_arity"); name = "validate_arity accepts exactly the stated counts"
    if f is None: out.append((name, H.UNDECIDED, "not found", None, []))
    else:
        lo, hi, k = var("lo"), var("hi"), var("k")
        def run(ex):
            for z in (lo, hi, k): ex.ints.add(z); ex.nn.add(z)
            ty = p.adts["symb_anafis::functions::registry::FunctionDefinition"][0]; fs = p.types[ty]["v"][0]["f"]
            rt = p.adts["std::ops::RangeInclusive"][0]
            d = Adt(ty, 0, [Adt(rt, 0, [lo, hi, False]) if n == "arity" else sym.Opaque(n) for n, _ in fs])
            r = ex.run(f, [Ptr(Cell(d)), k]); ex.ghost["r"] = ex.branch(r, "result") if not isinstance(r, bool) else r
            return ex.ghost["r"]
        def judge(ex, v):
            w1, w2 = ex.decide(ex.cmp("le", lo, k)), ex.decide(ex.cmp("le", k, hi))
            if v is True: return (H.PROVED, "") if w1 is True and w2 is True else (H.UNDECIDED, "accepted without both bounds")
            return (H.PROVED, "") if w1 is False or w2 is False else (H.UNDECIDED, "rejected although within bounds")
        st, why, _ = rec.drive(None, p, den.base_contracts(p), name, run, judge)
        out.append((name, st, why, None, list(sym.EXEC)))
    return out
TASKS["registry"] = w_registry
def tasks(C, n):
    it = [("eval", i) for i in range(n)]
    it += [("order", ("hermite", (k,), 0)) for k in range(-1, 13)] + [("order", ("assoc_legendre", (l, m), 0)) for l in range(-1, 6) for m in range(-l - 1, l + 2)]
    it += [("order", ("spherical_harmonic", (l, m), 0)) for l in range(-1, 4) for m in range(-l - 1, l + 2)] + [("order", (b, (k,), 0)) for b in ("besselj_forward", "bessely", "besselk", "besselj") for k in range(-6, 9)]
    it += [("order", ("besseli", (k,), 0)) for k in (0, 1, -1)]
    it += [("loop", (fm, ng)) for fm in ("hermite", "besselj_forward", "bessely", "besselk", "besseli", "besselj_miller") for ng in (False, True)] + [("loop", (fm, False)) for fm in ("legendre", "legendre0", "legendre-", "harmonic", "harmonic-")]
    it += [("shift", (fm, None)) for fm in ("digamma", "trigamma", "elliptic_k", "elliptic_e")] + [("shift", ("polygamma", k)) for k in range(2, 9)] + [("gamma", 0), ("registry", 0)]
    return it
def contractual(C, tab):
    for obs in par.run(work, tasks(C, len(tab)), C):
        for name, st, why, bound, fns in obs:
            C.fns.update(fns); C.ob(name, st, why, bounded=bound)
# ------------------------------------------------------------------ C. bounded: the real functions against mpmath
SPECIAL = ["gamma", "digamma", "trigamma", "tetragamma", "erf", "erfc", "zeta", "polygamma", "zeta_deriv", "beta", "besselj", "bessely", "besseli", "besselk", "hermite", "assoc_legendre", "spherical_harmonic", "ynm", "lambertw", "elliptic_k", "elliptic_e"]
REJECT = set("asin acos asec acsc acosh atanh acoth asech ln log log10 log2 sqrt lambertw bessely besselk".split())
def ref(n, a):
    m = mpmath; x = [mpf(v) for v in a]
    one = {"gamma": m.gamma, "digamma": m.digamma, "trigamma": lambda x: m.psi(1, x), "tetragamma": lambda x: m.psi(2, x), "zeta": m.zeta, "erf": m.erf, "erfc": m.erfc}
    if n in one: r = one[n](x[0])
    elif n == "polygamma": r = m.psi(int(x[0]), x[1])
    elif n == "zeta_deriv": r = m.zeta(x[1], 1, int(x[0]))
    elif n == "beta": r = m.beta(*x)
    elif n in ("bessely", "besselk") and x[1] <= 0: raise tm.NumUndef("domain")
    elif n.startswith("bessel"): r = getattr(m, n)(int(x[0]), x[1])
    elif n == "signum" and x[0] == 0: raise tm.NumUndef("0")
    else: r = tm.nfn("spherical_harmonic" if n == "ynm" else n, x)
    r = m.mpmathify(r)
    if abs(m.im(r)) > mpf(10) ** -20: raise tm.NumUndef("complex")
    return m.re(r)
def args_for(n, r):
    c = r.choice
    if n in ("gamma", "digamma", "trigamma", "tetragamma", "erf", "erfc"): return [c([r.uniform(-8, 8), r.uniform(0, 1), r.uniform(5, 60), float(r.randrange(1, 25)), r.randrange(1, 20) / 2])]
    if n == "zeta": return [c([r.uniform(-12, 12), r.uniform(0.9, 3), r.uniform(0, 1), float(r.randrange(2, 12))])]
    if n == "polygamma": return [r.randrange(0, 9), c([r.uniform(0.05, 3), r.uniform(3, 30), r.uniform(-4, 0), float(r.randrange(1, 20))])]
    if n == "zeta_deriv": return [r.randrange(0, 4), c([r.uniform(1.05, 12), r.uniform(1.05, 3), r.uniform(-5, 0.95)])]
    if n == "beta": return [r.uniform(-3, 6), r.uniform(-3, 6)]
    if n in ("besselj", "besseli"): return [c([r.randrange(-25, 26), r.randrange(-4, 5)]), c([r.uniform(-12, 12), r.uniform(-1, 1), r.uniform(10, 45)])]
    if n in ("bessely", "besselk"): return [c([r.randrange(-25, 26), r.randrange(-4, 5)]), c([r.uniform(0.05, 12), r.uniform(0.01, 2), r.uniform(10, 45), r.uniform(-1, 0)])]
    if n == "hermite": return [r.randrange(0, 30), c([r.uniform(-6, 6), r.uniform(-1, 1)])]
    if n in ("assoc_legendre", "spherical_harmonic", "ynm"):
        l = r.randrange(0, c([16, 5])); return [l, r.randrange(-l, l + 1)] + ([r.uniform(-1, 1)] if n == "assoc_legendre" else [r.uniform(-3, 4), r.uniform(-3, 6)])
    if n == "log": return [c([r.uniform(0.05, 8), 2.0, 10.0, 1.0, r.uniform(-2, 1)]), c([r.uniform(0.05, 20), 8.0, r.uniform(-3, 0)])]
    if n == "atan2": return [c([r.uniform(-3, 3), 0.0, 1.0, -1.0]), c([r.uniform(-3, 3), 0.5, -2.0])]
    return [c([r.uniform(-3, 3), r.uniform(-1, 1), r.uniform(0, 20), r.uniform(-20, 20), float(r.randrange(-4, 5)), r.randrange(-9, 10) / 2])]
def tol(n, a, w):
    if n in ("besselj", "bessely"): return mpf(2e-6) * (abs(w) + (mpf(0.05) if abs(a[1]) > abs(a[0]) else 0))
    if n == "besseli": return mpf(5e-5 if abs(a[1]) > 30 else 1e-6) * abs(w)
    if n == "besselk": return mpf(1e-6) * abs(w)
    if n in ("digamma", "trigamma", "polygamma", "tetragamma"): return mpf(1e-7) * (1 if n == "digamma" or a[0] == 0 and n == "polygamma" else 0) + mpf(1e-6) * abs(w)
    if n == "erfc": return mpf(1e-12)
    if n == "zeta_deriv": return mpf(1e-4 if a[0] else 1e-8) * (1 + abs(w))
    if n in ("zeta", "gamma", "beta", "erf"): return mpf(1e-8) * abs(w)
    if n == "hermite": return mpf(1e-10) * (abs(w) + mpf(2) ** a[0] * mpmath.gamma(mpf(a[0]) / 2 + 1) * (1 + abs(a[1])) ** a[0])
    if n in ("assoc_legendre", "spherical_harmonic", "ynm"): return mpf(1e-9) * abs(w) + mpf(1e-12)
    return mpf(1e-11) * (1 + abs(w)) if n not in ("exp", "sinh", "cosh", "exp_polar", "sech", "csch") else mpf(1e-11) * abs(w)
_NAMES = None
def one(n, a):
    s = R.call(f"fneval {n} " + " ".join(R.hx(float(x)) for x in a), 20)
    return None if s == "-" else R.unhx(s)
def case(r, st):
    with mpmath.workdps(30):
        global _NAMES
        if _NAMES is None: _NAMES = [x.split("|")[0] for x in R.call("fns").split()]
        n = r.choice(SPECIAL) if r.random() < 0.6 else r.choice(_NAMES)
        a = args_for(n, r)
        try: g = one(n, a)
        except R.RPanic as e: return f"eval:{n}", f"{n}({', '.join(map(str, a))}) panics: {e}", {"kind": "fneval", "name": n, "args": a}
        try: w = ref(n, a)
        except (tm.NumUndef, ValueError, ZeroDivisionError, mpmath.libmp.NoConvergence, TypeError, OverflowError):
            if n in REJECT and g is not None and math.isfinite(g): return f"eval:{n}", f"{n}({', '.join(map(str, a))}) = {g} outside the domain of {n}", {"kind": "fneval", "name": n, "args": a}
            st["undefined"] += 1; return None
        if not mpmath.isfinite(w): st["undefined"] += 1; return None
        st["compared"] += 1
        if abs(w) > mpf(10) ** 300: return None
        if g is None or g != g or abs(mpf(g) - w) > tol(n, a, w):
            key = "zeta-deriv-left" if n == "zeta_deriv" and a[0] >= 2 and a[1] < 1 else f"eval:{n}"
            return key, f"{n}({', '.join(map(str, a))}) = {'declined' if g is None else g}, should be {mpmath.nstr(w, 12)}", {"kind": "fneval", "name": n, "args": a, "expected": mpmath.nstr(w, 15)}
def rounding(r, st):
    """order parameters are rounded, invalid ones declined"""
    n = r.choice(["besselj", "bessely", "besseli", "besselk", "polygamma", "zeta_deriv", "hermite", "assoc_legendre", "spherical_harmonic", "ynm"]); k = SKIP[n]; a = args_for(n, r)
    if n.startswith("bessel"): a[1] = abs(a[1])
    b = [x + r.uniform(-0.49, 0.49) if i < k else x for i, x in enumerate(a)]
    if r.random() < 0.3:
        if n in ("polygamma", "hermite", "zeta_deriv"): b[0] = -1.0 - r.randrange(0, 5)
        elif n in ("assoc_legendre", "spherical_harmonic", "ynm"): b[1] = r.choice([-1, 1]) * (abs(b[0]) + 1 + r.randrange(1, 4))
        else: return None
        g = one(n, b); st["invalid"] += 1
        if g is not None and g == g: return f"order:{n}", f"{n}({', '.join(map(str, b))}) = {g} for an invalid order", {"kind": "fneval", "name": n, "args": b}
        return None
    g, h = one(n, a), one(n, b); st["rounded"] += 1
    if (g is None) != (h is None) or (g is not None and g != h and not (g != g and h != h)): return f"order:{n}", f"{n}{tuple(b)} = {h} but {n}{tuple(a)} = {g}", {"kind": "fneval", "name": n, "args": b}
def arity(r, st):
    """calls with any number of arguments through evaluate and simplify: no panic, and no value unless the count is right"""
    n, lo, hi = r.choice([(x.split("|")[0], int(x.split("|")[1]), int(x.split("|")[2])) for x in R.call("fns").split()]); k = r.choice([0, 1, 2, 3, 4, 5])
    t = ("f", n, [("n", float(r.choice([1, 2, 0.5, 3]))) for _ in range(k)])
    if r.random() < 0.3: t = ("+", [t, ("s", "x")])
    for c in ("evaluate 0 ", "simp 0 ", "simp 1 "):
        try: s = R.call(c + R.enc(t))
        except R.RPanic as e: return f"arity:{c.split()[0]}", f"{c.split()[0]} of {R.show(t)} panics: {e}", {"kind": "call", "cmd": c + R.enc(t)}
        st["calls"] += 1
        if not lo <= k <= hi:
            try: d = R.dec(s)
            except Exception: continue
            if not any(x == n for x in names(d)): return f"arity:{c.split()[0]}", f"{c.split()[0]} gives {R.show(t)}, which has {k} arguments, a value: {R.show(d)}", {"kind": "call", "cmd": c + R.enc(t)}
def names(t):
    if t[0] == "f": yield t[1]
    for c in t[1:]:
        if isinstance(c, tuple) and c and isinstance(c[0], str): yield from names(c)
        elif isinstance(c, list):
            for d in c:
                if isinstance(d, tuple) and d and isinstance(d[0], str): yield from names(d)
def huge(C):
    n = 0
    for nm, a in (("besselj", [-3e9, 1.0]), ("besselj", [3e9, 1.0]), ("bessely", [-3e9, 1.0]), ("besseli", [1e8, 1.0]), ("besselk", [-3e9, 1.0]), ("assoc_legendre", [5.0, -3e9, 0.5]), ("polygamma", [3e9, 1.0])):
        n += 1
        try: one(nm, a)
        except R.RPanic as e: C.violate("huge-order:" + nm, f"{nm}({', '.join(map(str, a))}) panics: {e}", {"kind": "fneval", "name": nm, "args": a})
        except R.Timeout: pass
    C.bounded["huge orders"] = {"cases": n, "bound": "the listed calls"}
def bounded(C):
    BND_.run(C, "functions against mpmath", case, 24000, 400000, "random arguments in the ranges of args_for, orders up to 30", per=150, seed=1)
    BND_.run(C, "orders are rounded or declined", rounding, 6000, 60000, "random orders", per=150, seed=2)
    BND_.run(C, "argument counts", arity, 4000, 40000, "0 to 5 numeric arguments", per=100, seed=3)
    huge(C)
def main():
    global _ST
    C = H.Check("C15")
    C.trusted = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor and std/num_traits models", "vf exponential-polynomial normaliser",
                 "std: f64::sin, exp, ln ... compute the functions of their names (libm)", "textbook identities used as specifications: explicit Hermite and Legendre sums, Bessel recurrences, reflection formulas, shift relations and Euler-Maclaurin tails of the polygamma functions, AGM"]
    C.assume = ["f64 arithmetic treated as real arithmetic", "|order| far from the limits of i32 (beyond: known finding huge-order)", "order parameters are rounded to the nearest integer (documented)", "signum(0) follows f64::signum",
                "approximations (Lanczos, rational fits, erf series, Borwein zeta, Halley iteration, Miller start) are compared with mpmath only (bounded)"]
    p = mir.prog(); _ST = (p, c02.table(p, den.base_contracts(p))); C.cov["definitions"] = len(_ST[1])
    contractual(C, _ST[1]); bounded(C); rec.refuted(C); C.finish()
