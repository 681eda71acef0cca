"""C02: every built-in derivative formula.  Contract of each `derivative` function of the definition table:
den(derivative(args, primes)) == sum_i d name/d arg_i (args) * den(primes_i), for all argument expressions."""
import random, math, os
import mpmath
from mpmath import mpf
from .. import term as tm, mir, sym, models, den, harness as H, replay as R, oracle as O, par
from ..term import num, mk, var, fn, ZERO
from ..sym import Ex, explore, Sym, Ptr, Cell, ArcV, VecV, Adt

ORDER = {"besselj": 1, "bessely": 1, "besseli": 1, "besselk": 1, "polygamma": 1, "zeta_deriv": 1, "hermite": 1, "assoc_legendre": 2, "spherical_harmonic": 2, "ynm": 2}
def spherical(l, m, th, ph):
    return tm.muln([mk("fn", "SHnorm", l, m), fn("assoc_legendre", l, m, fn("cos", th)), fn("cos", tm.mul(m, ph))])
def table(p, cs):
    """(name, lo, hi, eval closure, derivative closure) from executing the real all_definitions()"""
    f = p.fn("symb_anafis::functions::definitions::all_definitions")
    ex = Ex(p, cs, models, [], den.opts())
    v = ex.need_vec(ex.call(f["id"], []))
    out = []
    for d in v.e:
        a = ex.need_adt(d); names = [n for n, _ in p.types[a.ty]["v"][0]["f"]]
        g = dict(zip(names, a.f))
        ar = g["arity"]; ar = ar.f if isinstance(ar, sym.Tup) or isinstance(ar, Adt) else ar
        nm = g["name"] if isinstance(g["name"], str) else models.S(ex, g["name"])
        out.append((nm, int(tm.isnum(ar[0]) and ar[0].a[0] if not isinstance(ar[0], int) else ar[0]), int(tm.isnum(ar[1]) and ar[1].a[0] if not isinstance(ar[1], int) else ar[1]), g["eval"], g["derivative"]))
    return out
def spec(name, A, P):
    x = [var("\0a%d" % i) for i in range(len(A))]
    if name in ("spherical_harmonic", "ynm"): t = spherical(*x)
    else: t = fn(name, *x)
    skip = ORDER.get(name, 0); r = ZERO
    if name == "abs" or True:
        for i in range(skip, len(x)):
            d = tm.D(t, lambda v: tm.ONE if v is x[i] else ZERO)
            r = tm.add(r, tm.mul(d, P[i]))
    return tm.subst(r, dict(zip(x, A)))
def unfold_sh(t):
    """spherical harmonics by their definition"""
    memo = {}
    def go(u):
        if u in memo: return memo[u]
        a = [go(x) if isinstance(x, tm.T) else x for x in u.a]
        r = spherical(*a[1:]) if u.op == "fn" and u.a[0] in ("spherical_harmonic", "ynm") and len(a) == 5 else (mk(u.op, *a) if any(isinstance(x, tm.T) for x in u.a) else u)
        memo[u] = r; return r
    return go(t)
def main():
    C = H.Check("C02")
    C.trusted = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor and std models", "vf exponential-polynomial normaliser",
                 "assumed contracts: Expr constructors (decided by C03)", "table of partial derivatives of the special functions (DLMF); checked against numeric differentiation of an independent oracle in the bounded part"]
    C.assume = ["f64 arithmetic treated as real arithmetic", "order/degree parameters (Bessel, polygamma, zeta_deriv, Hermite, Legendre, spherical harmonics) do not depend on the variable of differentiation",
                "derivatives at isolated non-differentiable points excluded (floor, ceil, round, abs, signum)"]
    p = mir.prog(); cs = den.base_contracts(p); ly = den.lay(p)
    tab = table(p, cs)
    names = []
    for nm, lo, hi, ev, dv in tab:
        names.append((nm, lo, hi))
        for k in range(lo, hi + 1): one(C, p, cs, ly, nm, k, dv)
    C.cov["definitions"] = len(tab)
    bounded(C, names)
    C.finish()
def one(C, p, cs, ly, nm, k, dv):
    obn = f"{nm}/{k}.derivative"
    C.fns.add(f"symb_anafis::functions::definitions::all_definitions[{nm}].derivative")
    def make(dec): return Ex(p, cs, models, dec, den.opts(max_dec=40))
    def run(ex):
        A = [Sym(f"arg{i}", ly.EX) for i in range(k)]; P = [Sym(f"prm{i}", ly.EX) for i in range(k)]
        ex.ghost["a"] = A, P
        return ex.invoke_ptr(models.cellof(dv), [Ptr(Cell(VecV([ArcV(Cell(a)) for a in A]))), Ptr(Cell(VecV(P)))])
    r = explore(make, run, 200, 20)
    st, why = H.PROVED, ""; n = 0; wit = None
    for e, _ in r.unsupported: st, why = H.UNDECIDED, "unsupported: " + e
    for e, _ in r.panics: st, why = H.UNDECIDED, "panic path: " + str(e)
    if r.cut: st, why = H.UNDECIDED, "cut"
    for ex, v in r.paths:
        n += 1
        try:
            den.finish(ex)
            A, P = ex.ghost["a"]
            a = [den.expand(ex, den.ph(ex, x)) for x in A]; q = [den.expand(ex, den.ph(ex, x)) for x in P]
            l = unfold_sh(spec(nm, a, q)); rr = unfold_sh(den.expand(ex, den.ph(ex, v)))
            s, w, wt = H.judge(ex, rr, l, C.rnd)
        except sym.Infeasible: continue
        except Exception as e: st, why = H.UNDECIDED, f"{type(e).__name__} {e}"; continue
        if s == H.REFUTED and w.startswith("right side undefined"): s = H.UNDECIDED      # the specification need not exist where the formula does
        if s != H.PROVED and st != H.REFUTED:
            st, why, wit = s, f"{w}: {tm.show(rr)[:200]} should be {tm.show(l)[:200]}", wt
    C.ob(obn, st, why or f"{n} paths")
    if st == H.REFUTED:
        w = confirm(C, nm, k, 300)
        if w: violate(C, nm, w)
        elif C.baseline.get(obn) == H.PROVED: C.violate("deriv:" + nm, f"obligation {obn}: {why}", {"kind": "obligation", "obligation": obn, "verifier": why}, confirmed=False)
# ------------------------------------------------------------------ bounded: the real table against numeric differentiation of the oracle
RANGE = {"gamma": (0.4, 5), "digamma": (0.4, 5), "trigamma": (0.4, 5), "tetragamma": (0.4, 5), "lambertw": (-0.3, 4), "zeta": (1.3, 5), "zeta_deriv": (1.4, 5), "elliptic_k": (0.05, 0.9), "elliptic_e": (0.05, 0.9),
         "asec": (1.1, 5), "acsc": (1.1, 5), "acosh": (1.1, 5), "acoth": (1.1, 5), "asech": (0.05, 0.95), "asin": (-0.95, 0.95), "acos": (-0.95, 0.95), "atanh": (-0.95, 0.95), "besselk": (0.4, 5), "bessely": (0.4, 5),
         "assoc_legendre": (-0.9, 0.9), "beta": (0.4, 4), "polygamma": (0.5, 5), "ln": (0.05, 6), "log": (0.1, 6), "sqrt": (0.05, 6), "log10": (0.05, 6), "log2": (0.05, 6), "spherical_harmonic": (0.3, 2.8), "ynm": (0.3, 2.8)}
def orders(nm, k, rnd):
    if nm in ("assoc_legendre", "spherical_harmonic", "ynm"):
        l = rnd.choice([0, 1, 2, 3, 4]); m = rnd.randrange(0, l + 1)
        return [l, m]
    if nm == "polygamma": return [rnd.choice([0, 1, 2, 3])]
    if nm == "zeta_deriv": return [rnd.choice([0, 1])]
    if nm == "hermite": return [rnd.choice([1, 2, 3, 4, 5])]
    return [rnd.choice([0, 1, 2, 3, -1, -2] if nm.startswith("bessel") else [0, 1, 2])]
def case(nm, k, rnd, st):
    """one comparison; returns a witness or None"""
    skip = ORDER.get(nm, 0)
    od = orders(nm, k, rnd) if skip else []
    lo, hi = RANGE.get(nm, (-2.5, 2.5))
    xs = [lo + (hi - lo) * rnd.random() for _ in range(k - skip)]
    if nm in ("asec", "acsc", "acoth") and rnd.random() < 0.5: xs = [-x for x in xs]
    if nm in ("log",): xs[0] = rnd.choice([0.3, 0.6, 2.0, 3.0, 7.0])
    inner = [rnd.choice(["x", "2x", "x2", "c"]) for _ in xs] if rnd.random() < 0.8 else ["x"] * len(xs)
    if all(i == "c" for i in inner): inner[-1] = "x"
    # argument expressions u_i(x) with u_i(x0) = xs_i at x0, and their derivative expressions
    x0 = 0.25 + rnd.random(); X = ("s", "x"); N = lambda v: ("n", float(v))
    trees, dts, dv = [N(o) for o in od], [N(0) for _ in od], [mpf(0) for _ in od]
    vals = [mpf(o) for o in od]
    for i, t in zip(inner, xs):
        if i == "c": trees.append(N(t)); dts.append(N(0)); vals.append(mpf(t)); dv.append(mpf(0)); continue
        if i == "x": c = float(t - x0); trees.append(("+", [X, N(c)])); dts.append(N(1)); vals.append(mpf(x0) + mpf(c)); dv.append(mpf(1))
        elif i == "2x": c = float(t - 2 * x0); trees.append(("+", [("*", [N(2), X]), N(c)])); dts.append(N(2)); vals.append(2 * mpf(x0) + mpf(c)); dv.append(mpf(2))
        else: c = float(t - x0 * x0); trees.append(("+", [("^", X, N(2)), N(c)])); dts.append(("*", [N(2), X])); vals.append(mpf(x0) ** 2 + mpf(c)); dv.append(2 * mpf(x0))
    s = R.call(f"fnderiv {nm} {k} " + " ".join(R.enc(t) for t in trees + dts))
    if s.startswith("ERR") or s == "-": return ("missing", s)
    r = R.dec(s)
    try:
        f = lambda *a: tm.nfn(O.ALIAS.get(nm, nm), list(vals[:skip]) + list(a))
        exp = mpf(0)
        for i in range(skip, k):
            if dv[i] == 0: continue
            g = lambda h, i=i: f(*[vals[j] + (h if j == i else 0) for j in range(skip, k)])
            exp += mpmath.diff(g, 0, h=mpf(10) ** -9) * dv[i]
        got = O.ev(O.term(r), {"x": x0})
    except (tm.NumUndef, ValueError, ZeroDivisionError, mpmath.libmp.NoConvergence, TypeError): st["undef"] = st.get("undef", 0) + 1; return None
    if got is None: st["undef"] = st.get("undef", 0) + 1; return None
    st["points"] = st.get("points", 0) + 1
    if abs(got.v - exp) > mpf("1e-6") * (1 + abs(exp)): return ("value", [R.show(t) for t in trees], [R.show(t) for t in dts], R.show(r), x0, got.v, exp)
    return None
def confirm(C, nm, k, n):
    rnd = random.Random(C.seed * 13 + k); st = {}
    for _ in range(n):
        w = case(nm, k, rnd, st)
        if w: return w
    return None
def violate(C, nm, w):
    if w[0] == "missing": C.violate("deriv:" + nm, f"no derivative for built-in {nm}: {w[1]}", {"kind": "fnderiv", "name": nm}); return
    _, trees, dts, r, x0, got, exp = w
    C.violate("deriv:" + nm, f"derivative of {nm}({', '.join(trees)}) with argument derivatives {dts} is {r}; at x={x0} that is {mpmath.nstr(got, 12)}, the true derivative is {mpmath.nstr(exp, 12)}",
              {"kind": "fnderiv", "name": nm, "args": trees, "primes": dts, "x": x0, "got": got, "expected": exp})
def work(a):
    nm, k, n, seed = a
    rnd = random.Random(seed); st = {}; out = []
    for _ in range(n):
        try: w = case(nm, k, rnd, st)
        except (R.Timeout, R.RPanic) as e: w = ("missing", repr(e))
        if w: out.append(w); break
    return nm, n, st, out
def bounded(C, names):
    n = 400 if C.thorough else 60; tot = und = cases = 0; none = []
    for nm, k_, st, out in par.run(work, [(nm, k, n, C.seed * 101 + i) for i, (nm, lo, hi) in enumerate(names) for k in range(lo, hi + 1)], C):
        cases += k_; tot += st.get("points", 0)
        if not st.get("points"): none.append(nm)
        for w in out: violate(C, nm, w)
    C.bounded["table_vs_numeric_differentiation"] = {"cases": cases, "points": tot, "bound": "random argument values and inner functions x+c, 2x+c, x^2+c, constants, per table entry; order parameters 0..5", "entries_without_comparable_point": none}
