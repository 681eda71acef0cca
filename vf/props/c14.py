"""C14: dual numbers.  Contract of every operation: out.val == F(in.val...) and out.eps == sum dF/din_i * in_i.eps."""
import math
from fractions import Fraction
import mpmath
from mpmath import mpf
from .. import term as tm, mir, sym, models, harness as H, replay as R
from ..term import T, num, mk, var, fn, ZERO, ONE, TWO, PI
from ..sym import Ex, explore, Adt, Ptr, Cell, Tup

DUAL = "symb_anafis::math::dual::Dual"
F1 = lambda n: (lambda a: fn(n, a))
# method -> (trait path, arity, spec term)
SPEC = {
    "Float": {
        "floor": (1, F1("floor")), "ceil": (1, F1("ceil")), "round": (1, F1("round")), "trunc": (1, F1("trunc")),
        "fract": (1, lambda a: tm.sub(a, fn("trunc", a))), "abs": (1, F1("abs")), "signum": (1, F1("fsignum")),
        "mul_add": (3, lambda a, b, c: tm.add(tm.mul(a, b), c)), "recip": (1, lambda a: tm.div(ONE, a)),
        "powi": ("i", lambda a, n: tm.powt(a, n)), "powf": (2, lambda a, b: tm.powt(a, b)),
        "sqrt": (1, lambda a: tm.sqrt(a)), "exp": (1, F1("exp")), "exp2": (1, lambda a: tm.powt(TWO, a)),
        "ln": (1, F1("ln")), "log": (2, lambda a, b: tm.div(fn("ln", a), fn("ln", b))), "log2": (1, F1("log2")), "log10": (1, F1("log10")),
        "max": (2, lambda a, b: "max"), "min": (2, lambda a, b: "min"), "abs_sub": (2, lambda a, b: "abs_sub"),
        "cbrt": (1, F1("cbrt")), "hypot": (2, lambda a, b: tm.sqrt(tm.add(tm.sq(a), tm.sq(b)))),
        "sin": (1, F1("sin")), "cos": (1, F1("cos")), "tan": (1, F1("tan")), "asin": (1, F1("asin")), "acos": (1, F1("acos")), "atan": (1, F1("atan")),
        "atan2": (2, lambda a, b: fn("atan2", a, b)), "exp_m1": (1, lambda a: tm.sub(fn("exp", a), ONE)), "ln_1p": (1, lambda a: fn("ln", tm.add(a, ONE))),
        "sinh": (1, F1("sinh")), "cosh": (1, F1("cosh")), "tanh": (1, F1("tanh")), "asinh": (1, F1("asinh")), "acosh": (1, F1("acosh")), "atanh": (1, F1("atanh")),
        "sin_cos": (1, lambda a: (fn("sin", a), fn("cos", a))),
    },
    "ops": {
        "Add::add": (2, tm.add), "Sub::sub": (2, tm.sub), "Mul::mul": (2, tm.mul), "Div::div": (2, tm.div), "Neg::neg": (1, tm.neg),
        "AddAssign::add_assign": ("m", tm.add), "SubAssign::sub_assign": ("m", tm.sub), "MulAssign::mul_assign": ("m", tm.mul), "DivAssign::div_assign": ("m", tm.div),
    },
    "inherent": {
        "erf": (1, F1("erf")), "erfc": (1, F1("erfc")), "gamma": (1, F1("gamma")), "digamma": (1, F1("digamma")), "trigamma": (1, F1("trigamma")),
        "polygamma": ("i", lambda a, n: fn("polygamma", n, a)), "zeta": (1, F1("zeta")), "lambert_w": (1, F1("lambertw")),
        "bessel_j": ("i", lambda a, n: fn("besselj", n, a)), "sinc": (1, F1("sinc")), "sign": (1, F1("fsignum")),
        "elliptic_k": (1, F1("elliptic_k")), "elliptic_e": (1, F1("elliptic_e")), "beta": (2, lambda a, b: fn("beta", a, b)),
    },
}
# assumed contracts on the numeric special functions (decided separately by C15)
MATH = {"eval_erf": ("erf", 0), "eval_erfc": ("erfc", 0), "eval_gamma": ("gamma", 1), "eval_digamma": ("digamma", 1), "eval_trigamma": ("trigamma", 1),
        "eval_tetragamma": ("tetragamma", 1), "eval_polygamma": ("polygamma", 1), "eval_zeta": ("zeta", 1), "eval_zeta_deriv": ("zeta_deriv", 1),
        "eval_lambert_w": ("lambertw", 1), "bessel_j": ("besselj", 1), "eval_elliptic_k": ("elliptic_k", 1), "eval_elliptic_e": ("elliptic_e", 1)}
def contracts(p):
    c = {}
    for f in p.fns:
        n = f["name"]
        if not n.startswith("symb_anafis::math::"): continue
        b = n.split("::<")[0].split("::")[-1]
        if b in MATH and "dual" not in n:
            nm, opt = MATH[b]
            def h(ex, f_, a, nm=nm, opt=opt):
                t = fn(nm, *[ex.nf(ex.num_of(x)) for x in a])
                if nm == "besselj": t = fn(nm, ex.nf(ex.num_of(a[0])), ex.nf(ex.num_of(a[1])))
                if not opt: return t
                if ex.choose(2, "defined " + nm) == 1: return models.none(ex)
                return models.some(ex, t)
            c[n] = h; c[f["def"]] = h
    return c

def dD(F, d):
    return tm.D(F, lambda v: d.get(v, ZERO))

def main():
    C = H.Check("C14")
    C.trusted = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor and std/num_traits models", "vf exponential-polynomial normaliser",
                 "assumed contracts: the numeric special functions in src/math compute the named functions (C15)"]
    C.assume = ["f64 arithmetic treated as real arithmetic", "|x| < 1e-10-style tolerance tests idealised to x == 0", "Dual<T> verified at T = f64",
                "remainder is excluded (documented as non-differentiable)", "elliptic_k/elliptic_e derivatives are finite differences: bounded numeric comparison only"]
    p = mir.prog()
    cs = contracts(p)
    dty = None
    for i, t in enumerate(p.types):
        if t["k"] == "adt" and t["n"] == DUAL: dty = i
    fields = [f[0] for f in p.types[dty]["v"][0]["f"]]
    iv, ie = fields.index("val"), fields.index("eps")
    def mkdual(v, e):
        f = [None] * len(fields); f[iv] = v; f[ie] = e; return Adt(dty, 0, f)
    items = []
    for tr, d in SPEC.items():
        for m, (ar, F) in d.items():
            if tr == "Float": rx = rf"^<{DUAL}<f64> as num_traits::(float::)?Float>::{m}$"
            elif tr == "ops": rx = rf"^<{DUAL}<f64> as std::ops::{m}$".replace("Assign::", "Assign>::").replace("Add::", "Add>::").replace("Sub::", "Sub>::").replace("Mul::", "Mul>::").replace("Div::", "Div>::").replace("Neg::", "Neg>::")
            else: rx = rf"^{DUAL}::<f64>::{m}$"
            items.append((tr, m, ar, F, rx))
    for tr, m, ar, F, rx in items:
        fs = p.find(rx)
        name = f"Dual.{m}"
        if not fs:
            C.ob(name, H.UNDECIDED, "anchor not found"); continue
        f = fs[0]; C.fns.add(f["name"])
        verify(C, p, cs, name, m, ar, F, f, mkdual, iv, ie)
    for m, g in (("abs", "abs"), ("signum", "signum")):
        fs = p.find(rf"^<{DUAL}<f64> as num_traits::(sign::)?Signed>::{m}$")
        if fs:
            C.fns.add(fs[0]["name"])
            verify(C, p, cs, "Dual.Signed." + m, m, "r", SPEC["Float"][m][1], fs[0], mkdual, iv, ie)
    bounded(C)
    C.finish()

def verify(C, p, cs, name, m, ar, F, f, mkdual, iv, ie):
    k = {"i": 1, "m": 2, "r": 1}.get(ar, ar)
    A = [var("abc"[i]) for i in range(k)]; E = [var("d" + "abc"[i]) for i in range(k)]
    n = var("n")
    def make(dec):
        ex = Ex(p, cs, models, dec)
        if ar == "i": ex.ints.add(n)
        return ex
    cell = {}
    def run(ex):
        args = [mkdual(a, e) for a, e in zip(A, E)]
        if ar == "i": args.append(n)
        if ar == "r": args[0] = Ptr(Cell(args[0]))
        if ar == "m":
            c = Cell(args[0]); args[0] = Ptr(c)
            ex.call(f["id"], args); return c.v
        return ex.call(f["id"], args)
    r = explore(make, run, 200, 30)
    okp = 0
    st, why = H.PROVED, ""
    for e, _x in r.unsupported: st, why = H.UNDECIDED, "unsupported: " + e
    for e in r.cut: st, why = H.UNDECIDED, "cut: " + str(e[0])
    for e, ex in r.panics:
        if "n" in e and "overflow" in e.lower(): C.notes.append(f"{name}: possible integer overflow at {e}"); continue
        st, why = H.UNDECIDED, "panic path: " + e
    Fs = F(*(A + ([n] if ar == "i" else [])))
    fail = None
    dv = dict(zip(A, E))
    def specs(ex):
        if isinstance(Fs, tuple): return list(Fs)
        if Fs == "max": return None
        return [Fs]
    for ex, v in r.paths:
        v = ex.force(v)
        if isinstance(v, Adt) and p.types[v.ty]["n"].endswith("Option"):
            if v.var == 0: continue
            v = ex.force(v.f[0])
        outs = [ex.force(x) for x in v.f] if isinstance(v, Tup) else [v]
        okp += 1
        for j, o in enumerate(outs):
            val, eps = ex.num_of(o.f[iv]), ex.num_of(o.f[ie])
            if m in ("max", "min"):
                lt = ex.decide(mk("lt", A[0], A[1]))
                if lt is None:
                    c = ex.decide(mk("lt", A[1], A[0])); lt = None if c is None else not c
                if lt is None: st, why = H.UNDECIDED, "path does not order the operands"; continue
                want = A[1] if (lt == (m == "max")) else A[0]
                fv = want
            elif m == "abs_sub":
                le = ex.decide(mk("le", A[0], A[1]))
                if le is None: st, why = H.UNDECIDED, "path does not order the operands"; continue
                fv = ZERO if le else tm.sub(A[0], A[1])
            else: fv = Fs[j] if isinstance(Fs, tuple) else Fs
            fe = dD(fv, dv)
            if m == "elliptic_k" or m == "elliptic_e": fe = eps
            for what, got, want in (("value", val, fv), ("derivative", eps, fe)):
                want2 = lim(ex, want)
                s, w, wit = H.judge(ex, want2, got, C.rnd)
                if s == H.REFUTED and fail is None: fail = (what, got, want, wit, ex)
                if s != H.PROVED and st == H.PROVED: st, why = s, f"{what}: {w}"
    if okp == 0 and st == H.PROVED: st, why = H.UNDECIDED, "no normal path (vacuous)"
    if fail: st = H.REFUTED; why = f"{fail[0]} differs"
    C.ob(name, st, why, bounded="finite difference" if m.startswith("elliptic") else None)
    if fail:
        what, got, want, wit, ex = fail
        conc = concretise(m, ar, A, E, n, wit[0], Fs if not isinstance(Fs, str) else None)
        key = f"dual:{m}:{what}"
        C.violate(key, f"Dual::{m} {what} part is not that of the function" + (f" at {conc['input']}: got {conc['got']}, expected {conc['want']}" if conc else ""),
                  {"obligation": name, "path": [str(x) for x in ex.log], "got_term": tm.show(got), "want_term": tm.show(want), "concrete": conc}, bool(conc))

def lim(ex, t):
    """value of t at the path's substituted point, as a limit when the closed form is 0/0 there"""
    u = ex.nf(t)
    subs = {v: s for v, s in ex.sub.items() if tm.isnum(s)}
    if not subs: return u
    try:
        tm.neval(u, {v: mpf("0.7") for v in tm.free_vars(u)}); return u
    except Exception: pass
    # replace by numeric limit of the coefficient: evaluate the function slightly off the point
    old = mpmath.mp.dps
    try:
        mpmath.mp.dps = 60
        off = {v: num(s.a[0] + Fraction(1, 10 ** 18)) for v, s in subs.items()}
        rest = {v: s for v, s in ex.sub.items() if v not in subs}
        w = tm.subst(tm.subst(t, rest) if rest else t, off)
        vs = [v for v in tm.free_vars(w)]
        # linear in the eps variables
        res = ZERO
        for v in vs:
            env = {x: mpf(0) for x in vs}; env[v] = mpf(1)
            c = tm.neval(w, env)
            q = Fraction(str(mpmath.nstr(c, 12)))
            res = tm.add(res, tm.mul(num(q), v))
        if not vs: res = num(Fraction(str(mpmath.nstr(tm.neval(w, {}), 12))))
        return res
    except Exception: return u
    finally: mpmath.mp.dps = old

RN = {"Add::add": "add", "Sub::sub": "sub", "Mul::mul": "mul", "Div::div": "div", "Neg::neg": "neg", "AddAssign::add_assign": "add_assign",
      "SubAssign::sub_assign": "sub_assign", "MulAssign::mul_assign": "mul_assign", "DivAssign::div_assign": "div_assign"}
def runreal(m, vals, epss, n=None):
    ms = RN.get(m, m)
    line = f"dual {ms} {len(vals)} " + " ".join(R.hx(float(v)) + " " + R.hx(float(e)) for v, e in zip(vals, epss)) + (f" {int(n)}" if n is not None else "")
    s = R.call(line)
    if s in ("-", "UNKNOWN"): return None
    a, b = s.split(); return R.unhx(a), R.unhx(b)
def expected(Fs, A, vals, epss, nvar=None, nval=None):
    env = {a: mpf(v) for a, v in zip(A, vals)}
    if nvar is not None: env[nvar] = mpf(nval)
    v = tm.neval(Fs, dict(env))
    e = mpf(0)
    for i, a in enumerate(A):
        if epss[i] == 0: continue
        d = tm.D(Fs, lambda x: ONE if x is a else ZERO)
        e += tm.neval(d, dict(env)) * mpf(epss[i])
    return v, e
def close(x, y, tol):
    if x != x or x in (math.inf, -math.inf): return False
    return abs(mpf(x) - y) <= tol * (1 + abs(y))
def concretise(m, ar, A, E, n, env, Fs):
    """run the real code at (or near) the witness"""
    if Fs is None or isinstance(Fs, tuple): return None
    for vals in ([float(env.get(a, mpf("0.7"))) for a in A], [0.6, 0.45, 0.3][:len(A)], [1.7, 2.3, 0.4][:len(A)], [-0.6, 2.0, 1.0][:len(A)], [2.0, -1.5, 1.0][:len(A)]):
        epss = [float(env.get(e, mpf(1))) or 1.0 for e in E]
        nv = int(env.get(n, 2)) if ar == "i" else None
        try:
            v, e = expected(Fs, A, vals, epss, n if ar == "i" else None, nv)
            r = runreal(m, vals, epss, nv)
        except Exception as ex_: continue
        if r is None: continue
        if not close(r[0], v, 1e-7) or not close(r[1], e, 1e-4 if m.startswith("elliptic") else 1e-7):
            return {"input": list(zip(vals, epss)) + ([nv] if nv is not None else []), "got": r, "want": [float(v), float(e)]}
    return None

def bounded(C):
    """bounded stand-in: the real operations at sample points against mpmath"""
    pts = [0.3, 0.61, 0.87, 1.4, 2.25, 3.7, -0.35, -0.8, -1.6, -3.2, 6.5, 0.04]
    if C.thorough: pts += [C.rnd.uniform(-8, 8) for _ in range(60)] + [0.0, 1.0, -1.0, 25.0, -20.0]
    cases = bad = 0
    for tr, d in SPEC.items():
        for m, (ar, F) in d.items():
            if m in ("floor", "ceil", "round", "trunc", "fract", "signum", "sign", "sin_cos"): continue
            k = {"i": 1, "m": 2}.get(ar, ar)
            A = [var("abc"[i]) for i in range(k)]; n = var("n")
            Fs = F(*(A + ([n] if ar == "i" else [])))
            combos = [[x] for x in pts] if k == 1 else [[x, y] + ([0.9] if k == 3 else []) for x in pts[:9] for y in (1.3, 2.0, -0.7, 0.45, 3.0, -2.0)]
            for vals in combos:
                for nv in ([-2, -1, 0, 1, 2, 3, 5] if ar == "i" else [None]):
                    for epss in ([1.0] * k, [0.0] * (k - 1) + [2.5]) if k > 1 else ([1.5],):
                        if isinstance(Fs, str):
                            a, b = vals[:2]
                            if a == b: continue
                            if Fs == "max": w = (a, epss[0]) if a > b else (b, epss[1])
                            elif Fs == "min": w = (a, epss[0]) if a < b else (b, epss[1])
                            else: w = (a - b, epss[0] - epss[1]) if a > b else (0.0, 0.0)
                            v, e = mpf(w[0]), mpf(w[1])
                        else:
                            try: v, e = expected(Fs, A, vals, epss, n if ar == "i" else None, nv)
                            except Exception: continue
                            if abs(v) > 1e12 or abs(e) > 1e12: continue
                        r = runreal(m, vals, epss, nv)
                        if r is None: continue       # declined
                        cases += 1
                        tol = 1e-4 if m.startswith("elliptic") else (1e-6 if tr == "inherent" else 1e-9)
                        if not close(r[0], v, tol) or not close(r[1], e, tol):
                            bad += 1
                            C.violate(f"dual:{m}:point", f"Dual::{m} at {list(zip(vals, epss))}{'' if nv is None else f' n={nv}'}: got {r}, expected ({float(v)}, {float(e)})",
                                      {"op": m, "input": list(zip(vals, epss)), "n": nv, "got": r, "want": [float(v), float(e)]})
    C.bounded["dual operations at sample points vs mpmath"] = {"cases": cases, "bound": "fixed grid of points; thorough adds random points", "failures": bad}
