"""C10: polynomial arithmetic. Every operation of Polynomial against the algebra on its denotation, keeping the
canonical form (strictly increasing powers, no zero coefficient)."""
import random
from fractions import Fraction as Q
from .. import term as tm, mir, sym, models, den, rec, harness as H, replay as R, oracle as O, par, simpdiff, bnd as BND_
from ..term import num, var, mk, ZERO, ONE
from ..sym import Sym, SymV, StrSym, Ptr, Cell, VecV, Adt, ArcV, Opaque, Tup
from . import c01, c17
PM = den.POLYM
_ST = None
CHUNK = "terms below/above"
class Chunk(Opaque):
    """an arbitrary canonical run of terms, on one side of the looked-up power"""
    def __init__(self, t): super().__init__(CHUNK); self.t = t
def power(ex, n):
    t = var(n); ex.ints.add(t); ex.nn.add(t); return t
def poly(ex, ly, nm, n, base=None, powers=None):
    """canonical polynomial of n terms over an arbitrary base: symbolic increasing powers, nonzero coefficients"""
    base = base or Sym(ex.fresh_id("base"), ly.EX); ts = []; last = None
    for i in range(n):
        c = var(f"{nm}c{i}"); ex.assume(ex.cmp("eq", c, ZERO), False)
        if powers: k = num(powers[i])
        else:
            k = power(ex, f"{nm}k{i}")
            if last is not None: ex.assume(ex.cmp("lt", last, k))
            last = k
        ts.append(Tup([ex.toint(k, False), c]))
    f = [None] * len(ly.pf); f[ly.pf["base"]] = ArcV(Cell(base)); f[ly.pf["terms"]] = VecV(ts)
    return Adt(ly.PO, 0, f), base
def terms(ex, ly, v):
    v = ex.need_adt(ex.deref_all(v)); out = []
    for x in ex.need_vec(v.f[ly.pf["terms"]]).e:
        x = ex.force(x)
        out.append(x if isinstance(x, Chunk) else (ex.num_of(x.f[0]), ex.num_of(x.f[1])))
    return out
def coeffs(ex, ly, v):
    """the denotation in one indeterminate X standing for the base"""
    X = var("X:base"); t = ZERO
    for x in terms(ex, ly, v): t = tm.add(t, x.t if isinstance(x, Chunk) else tm.mul(x[1], tm.powt(X, x[0])))
    return t
def base_of(ex, ly, v): return ex.force(ex.load(ex.need_adt(ex.deref_all(v)).f[ly.pf["base"]]))
def yes(ex, b): return b is True or (not isinstance(b, bool) and ex.decide(b) is True)
def no(ex, b): return b is False or (not isinstance(b, bool) and ex.decide(b) is False)
def canonical(ex, ly, v):
    ts = [x for x in terms(ex, ly, v) if not isinstance(x, Chunk)]
    for a, b in zip(ts, ts[1:]):
        if not yes(ex, ex.cmp("lt", a[0], b[0])): return f"powers {tm.show(a[0])}, {tm.show(b[0])} not shown to increase"
    for k, c in ts:
        c = ex.nf(c)
        if not no(ex, ex.cmp("eq", c, ZERO)):
            if any(no(ex, ex.cmp("eq", f, ZERO)) is False for f in factors(c)) or not factors(c): return f"coefficient {tm.show(c)} not shown nonzero"
    return None
def factors(t):
    if t.op == "mul": return [f for x in t.a for f in factors(x)]
    if t.op in ("neg", "inv"): return factors(t.a[0])
    if t.op == "div": return factors(t.a[0])
    return [t]
def same(ex, spec, got, rnd):
    s, w, _ = H.judge(ex, ex.nf(spec), ex.nf(got), rnd); return s, (f"denotes {tm.show(ex.nf(got))[:200]}, should be {tm.show(ex.nf(spec))[:200]}" + (": " + w if w else "")) if s != H.PROVED else ""
X = var("X:base")
def ddx(ex, ly, v):
    t = ZERO
    for k, c in terms(ex, ly, v):
        if yes(ex, ex.cmp("eq", k, ZERO)): continue
        t = tm.add(t, tm.mul(tm.mul(c, k), tm.powt(X, tm.sub(k, ONE))))
    return t
# item: (operation, terms of self, terms of other)
def items(C):
    L = [("is_zero", n, 0) for n in (0, 1, 2)] + [("is_constant", n, 0) for n in (0, 1, 2)] + [("as_constant", n, 0) for n in (0, 1, 2)] + [("degree", n, 0) for n in (0, 1, 2, 3)] + [("leading_coeff", n, 0) for n in (0, 1, 2, 3)]
    L += [("coeff", n, 0) for n in (0, 1, 2, 3)] + [("term_count", n, 0) for n in (0, 1, 2)] + [("first_coeff", n, 0) for n in (0, 1, 2)]
    L += [(o, n, 0) for o in ("negate", "scale", "derivative", "make_monic", "with_negated_first") for n in (0, 1, 2, 3)]
    L += [("constant", 0, 0), ("term", 0, 0), ("from_base", 0, 0), ("zero", 0, 0), ("with_base", 2, 0), ("set_base", 2, 0), ("take_base", 2, 0)]
    m = 3 if C.thorough else 2
    L += [(o, a, b) for o in ("add", "sub", "try_add_assign") for a in range(m + 1) for b in range(m + 1)] + [("try_add_assign/other base", a, b) for a in range(3) for b in range(3)]
    L += [("mul", a, b) for a in range(3) for b in range(3)] + [("try_mul", a, b) for a in range(3) for b in range(3)] + [("try_mul/other base", a, b) for a in range(3) for b in range(3)]
    L += [("add_term", "any", 0)]
    L += [("to_expr", n, 0) for n in (0, 1, 2, 3)] + [("to_expr_terms", n, 0) for n in (0, 1, 2, 3)] + [("term_to_expr", 0, 0), ("derivative_with_base", 2, 0), ("derivative_with_base", 1, 0), ("derivative_with_base", 0, 0)]
    return L
def getf(p, nm): return p.fn(PM + nm)
def w_op(a):
    op, n, m = a; C, p, ly = _ST; sym.EXEC.clear(); nm, other = (op.split("/") + [None])[:2]
    f = getf(p, nm)
    if f is None: return a, H.UNDECIDED, nm + " not found", []
    cs = dict(den.base_contracts(p))
    keep = {"to_expr", "to_expr_terms", "term_to_expr", "derivative_with_base"}
    for k in list(cs):
        if k.startswith(PM): cs.pop(k)
    if nm == "derivative_with_base": cs[PM + "to_expr"] = lambda ex, fn_, x: den.mkexpr(ex, tm.subst(coeffs(ex, ly, x[0]), {X: den.ph(ex, base_of(ex, ly, x[0]))}))
    if nm == "add_term":
        def c_bs(ex, fn_, x):
            return models.ok(ex, 1) if ex.ghost["hit"] else models.err(ex, 1)
        for g in p.fns:
            if g["def"].endswith("::binary_search_by_key"): cs[g["def"]] = c_bs
    def run(ex):
        A, b = poly(ex, ly, "a", n if isinstance(n, int) else 0); ex.ghost["A"], ex.ghost["b"] = A, b
        P = Ptr(Cell(A)); ex.ghost["P"] = P
        if nm == "add_term":
            hit = ex.choose(2, "power present") == 0; ex.ghost["hit"] = hit; k, c = power(ex, "k"), var("c"); old = var("old")
            ex.assume(ex.cmp("eq", old, ZERO), False)
            lo, hi = Chunk(var("low")), Chunk(var("high")); l = [lo] + ([Tup([ex.toint(k, False), old])] if hit else []) + [hi]
            fs = list(A.f); fs[ly.pf["terms"]] = VecV(l); A = Adt(A.ty, 0, fs); P = Ptr(Cell(A)); ex.ghost["A"], ex.ghost["P"] = A, P
            ex.ghost["kc"] = k, c
            ex.run(f, [P, ex.toint(k, False), c]); return ex.load(P)
        if nm == "scale": ex.ghost["s"] = var("s"); return ex.run(f, [P, var("s")])
        if nm == "coeff": ex.ghost["k"] = power(ex, "k"); return ex.run(f, [P, ex.toint(ex.ghost["k"], False)])
        if nm == "constant": return ex.run(f, [var("s")])
        if nm == "zero": return ex.run(f, [ArcV(Cell(b))])
        if nm == "term": ex.ghost["k"] = power(ex, "k"); return ex.run(f, [ArcV(Cell(b)), ex.toint(ex.ghost["k"], False), var("s")])
        if nm == "from_base": return ex.run(f, [b])
        if nm in ("with_base", "set_base"):
            nb = Sym("newbase", ly.EX); ex.ghost["nb"] = nb; r = ex.run(f, [P, ArcV(Cell(nb))]); return r if nm == "with_base" else ex.load(P)
        if nm == "take_base": return ex.run(f, [P])
        if nm == "term_to_expr": k = power(ex, "k"); ex.ghost["k"] = k; return ex.run(f, [P, ex.toint(k, False), var("s")])
        if nm == "derivative_with_base": d = Sym("dbase", ly.EX); ex.ghost["d"] = d; return ex.run(f, [P, Ptr(Cell(d))])
        if nm in ("add", "sub", "mul", "try_mul", "try_add_assign"):
            Bp, bb = poly(ex, ly, "b", m, None if other else b); ex.ghost["B"], ex.ghost["bb"] = Bp, bb
            if other is None: fs = list(Bp.f); fs[ly.pf["base"]] = A.f[ly.pf["base"]] if ex.choose(2, "base shared") == 0 else ArcV(Cell(b)); Bp = Adt(Bp.ty, 0, fs)
            r = ex.run(f, [P, Ptr(Cell(Bp))])
            if nm == "try_add_assign": return Tup([ex.branch(r), ex.load(P)])
            return r
        r = ex.run(f, [P])
        return ex.branch(r) if nm == "is_constant" else r
    rnd = random.Random(5)
    def judge(ex, v):
        A = ex.ghost["A"]; g = ex.ghost; ca = coeffs(ex, ly, A); n_ = len(terms(ex, ly, A)); ta = terms(ex, ly, A)
        P_ = lambda s, w="": (H.PROVED, "") if s else (H.REFUTED, w or f"returns {v}")
        eqt = lambda x, y: tm.prove_eq(ex.nf(x), ex.nf(y)) is True
        if nm == "is_zero": return P_(v is (n_ == 0))
        if nm == "term_count": return P_(ex.num_of(v) is num(n_) or v == n_)
        if nm in ("is_constant", "as_constant"):
            c = n_ == 0 or n_ == 1 and yes(ex, ex.cmp("eq", ta[0][0], ZERO)); nc = n_ > 1 or n_ == 1 and no(ex, ex.cmp("eq", ta[0][0], ZERO))
            if not c and not nc: return H.UNDECIDED, "power not compared"
            if nm == "is_constant": return P_(ex.branch(v) is c if isinstance(v, bool) else False)
            o = ex.need_adt(v)
            return P_(bool(o.f) is c and (not o.f or eqt(ex.num_of(o.f[0]), ta[0][1] if ta else ZERO)))
        if nm == "degree": return P_(eqt(ex.num_of(v), ta[-1][0] if ta else ZERO))
        if nm == "leading_coeff": return P_(eqt(ex.num_of(v), ta[-1][1] if ta else ZERO))
        if nm == "first_coeff":
            o = ex.need_adt(v); return P_(bool(o.f) == bool(ta) and (not ta or eqt(ex.num_of(o.f[0]), ta[0][1])))
        if nm == "coeff":
            for k, c in ta:
                if yes(ex, ex.cmp("eq", k, g["k"])): return P_(eqt(ex.num_of(v), c))
                if not no(ex, ex.cmp("eq", k, g["k"])) and not eqt(ex.num_of(v), ZERO): return H.UNDECIDED, "power not compared"
            if any(not no(ex, ex.cmp("eq", k, g["k"])) for k, _ in ta): return H.REFUTED, "0 although the power may be present"
            return P_(eqt(ex.num_of(v), ZERO))
        if nm in ("to_expr", "term_to_expr", "derivative_with_base", "to_expr_terms"):
            B = den.ph(ex, g["b"])
            if nm == "term_to_expr": sp = tm.mul(var("s"), tm.powt(B, g["k"]))
            elif nm == "derivative_with_base": sp = tm.mul(tm.subst(ddx(ex, ly, A), {X: B}), den.ph(ex, g["d"]))
            elif nm == "to_expr_terms":
                l = den.items(ex, v)
                if len(l) != n_: return H.REFUTED, f"{len(l)} terms instead of {n_}"
                for (k, c), x in zip(ta, l):
                    s, w = rec.den_judge(ex, tm.mul(c, tm.powt(B, k)), x, rnd)
                    if s != H.PROVED: return s, w
                return H.PROVED, ""
            else: sp = tm.subst(ca, {X: B})
            return rec.den_judge(ex, sp, v, rnd)
        if nm == "try_add_assign" or nm == "try_mul":
            if nm == "try_mul":
                o = ex.need_adt(v)
                if not o.f: return P_(other is not None and not has_const(ex, ly, A) and not has_const(ex, ly, g["B"]), "declines although the product is a polynomial")
                v = o.f[0]; ok = True
            else: ok, v = v.f
            cb = coeffs(ex, ly, g["B"])
            if not ok:
                if other is None: return H.REFUTED, "declines although the bases agree"
                s, w = same(ex, ca, coeffs(ex, ly, v), rnd); return (s, w or "") if s != H.PROVED else P_(base_of(ex, ly, v) is g["b"], "base changed although declined")
            da = tm.subst(ca, {X: var("X:a")}); db = tm.subst(cb, {X: var("X:a" if other is None else "X:b")})
            if other is not None and yes2(ex, g): db = tm.subst(cb, {X: var("X:a")})
            r = coeffs(ex, ly, v); bo = base_of(ex, ly, v)
            if other is not None and yes2(ex, g): side = "X:a" if rec.key(ex, bo) == rec.key(ex, g["b"]) else None
            else: side = "X:a" if bo is g["b"] else "X:b" if bo is g.get("bb") else None
            if side is None and other is not None and terms_const(ex, ly, v): side = "X:a"
            if side is None: return H.UNDECIDED, "base of the result not recognised"
            s, w = same(ex, (tm.add if nm == "try_add_assign" else tm.mul)(da, db), tm.subst(r, {X: var(side)}), rnd)
        else:
            if nm == "take_base": return P_(ex.force(ex.load(v)) is g["b"])
            sp = {"negate": lambda: tm.neg(ca), "scale": lambda: tm.mul(var("s"), ca), "derivative": lambda: ddx(ex, ly, A), "zero": lambda: ZERO, "constant": lambda: var("s"),
                  "term": lambda: tm.mul(var("s"), tm.powt(X, g["k"])), "from_base": lambda: X, "with_base": lambda: ca, "set_base": lambda: ca,
                  "add": lambda: tm.add(ca, coeffs(ex, ly, g["B"])), "sub": lambda: tm.sub(ca, coeffs(ex, ly, g["B"])), "mul": lambda: tm.mul(ca, coeffs(ex, ly, g["B"])),
                  "add_term": lambda: tm.add(ca, tm.mul(g["kc"][1], tm.powt(X, g["kc"][0]))) if nm == "add_term" else None,
                  "make_monic": lambda: tm.div(ca, ta[-1][1]) if ta else ZERO,
                  "with_negated_first": lambda: tm.sub(ca, tm.mul(num(2), tm.mul(ta[0][1], tm.powt(X, ta[0][0])))) if ta else ZERO}[nm]()
            s, w = same(ex, sp, coeffs(ex, ly, v), rnd)
            if s == H.PROVED and nm != "constant" and base_of(ex, ly, v) is not (g["nb"] if nm in ("with_base", "set_base") else g["b"]): return H.REFUTED, "another base"
        if s != H.PROVED: return s, w
        if nm == "add_term":
            l = terms(ex, ly, v); ch = [i for i, x in enumerate(l) if isinstance(x, Chunk)]
            if not (len(ch) == 2 and l[0] is terms(ex, ly, A)[0] and l[-1] is terms(ex, ly, A)[-1] and ch == [0, len(l) - 1]): return H.REFUTED, "terms out of order"
            if len(l) > 3: return H.REFUTED, "the power occurs twice"
            if len(l) == 3 and not eqt(l[1][0], g["kc"][0]): return H.REFUTED, "another power"
        w = canonical(ex, ly, v)
        if w: return (H.UNDECIDED, w)
        if nm == "make_monic" and ta and not eqt(terms(ex, ly, v)[-1][1], ONE): return H.REFUTED, "not monic"
        return H.PROVED, ""
    st, why, k = rec.drive(C, p, cs, "", run, judge, opts={"nopanic": lambda pe, e: True, "max_dec": 120})
    return a, st, why, list(sym.EXEC)
def terms_const(ex, ly, v): return all(yes(ex, ex.cmp("eq", k, ZERO)) for k, _ in terms(ex, ly, v))
def has_const(ex, ly, v):
    t = terms(ex, ly, v); return not t or len(t) == 1 and not no(ex, ex.cmp("eq", t[0][0], ZERO))
def yes2(ex, g): return g["b"] is g["bb"] or rec.key(ex, g["b"]) == rec.key(ex, g["bb"]) or any(x in ex.ghost.get("eqs", set()) for x in [(rec.key(ex, g["b"]), rec.key(ex, g["bb"]))])
# ------------------------------------------------------------------ division and gcd
def w_div(a):
    pa, pb = a; C, p, ly = _ST; sym.EXEC.clear(); f = getf(p, "div_rem")
    cs = {k: v for k, v in den.base_contracts(p).items() if not k.startswith(PM)}
    def run(ex):
        A, b = poly(ex, ly, "a", len(pa), powers=pa); B, _ = poly(ex, ly, "b", len(pb), b, powers=pb); ex.ghost["AB"] = A, B
        return ex.run(f, [Ptr(Cell(A)), Ptr(Cell(B))])
    rnd = random.Random(9)
    def judge(ex, v):
        o = ex.need_adt(v); A, B = ex.ghost["AB"]
        if not pb: return (H.PROVED, "") if not o.f else (H.REFUTED, "division by zero succeeds")
        if not o.f: return H.REFUTED, "declines"
        q, r = ex.need_adt(o.f[0]).f if not isinstance(ex.force(o.f[0]), Tup) else ex.force(o.f[0]).f
        s, w = same(ex, coeffs(ex, ly, A), tm.add(tm.mul(coeffs(ex, ly, q), coeffs(ex, ly, B)), coeffs(ex, ly, r)), rnd)
        if s != H.PROVED: return s, w
        rt = terms(ex, ly, r)
        if rt and not yes(ex, ex.cmp("lt", rt[-1][0], num(pb[-1]))): return H.REFUTED, f"remainder of degree {tm.show(rt[-1][0])}"
        for x in (q, r):
            w = order(ex, ly, x)
            if w: return H.UNDECIDED, w
        return H.PROVED, ""
    st, why, k = rec.drive(C, p, cs, "", run, judge, opts={"nopanic": lambda pe, e: True})
    return a, st, why, list(sym.EXEC)
def order(ex, ly, v):
    t = terms(ex, ly, v)
    for x, y in zip(t, t[1:]):
        if not yes(ex, ex.cmp("lt", x[0], y[0])): return "powers not increasing"
    return None
def w_gcd(a):
    C, p, ly = _ST; sym.EXEC.clear(); f = getf(p, "gcd"); nsteps = a[1]
    cs = {k: v for k, v in den.base_contracts(p).items() if not k.startswith(PM)}
    def c_div(ex, fn_, x):
        a_, b_ = ex.deref_all(x[0]), ex.deref_all(x[1]); tr = ex.ghost.setdefault("trace", [])
        if len(tr) >= nsteps: raise sym.Infeasible()
        r, _ = poly(ex, ly, f"r{len(tr)}", 0 if len(tr) == nsteps - 1 else 1, ex.ghost["b"])
        tr.append((a_, b_, r)); return models.some(ex, Tup([Opaque("quotient"), r]))
    def c_monic(ex, fn_, x): ex.ghost["monic of"] = ex.deref_all(x[0]); return Opaque("monic")
    cs[PM + "div_rem"] = c_div; cs[PM + "make_monic"] = c_monic
    def run(ex):
        A, b = poly(ex, ly, "a", 2); ex.ghost["b"] = b
        B, bb = poly(ex, ly, "b", 0 if nsteps == 0 else 2, b if a[0] == "same base" else None); ex.ghost["AB"] = A, B; ex.ghost["bb"] = bb
        return ex.run(f, [Ptr(Cell(A)), Ptr(Cell(B))])
    sameterms = lambda ex, x, y: x is y or [(tm.show(k), tm.show(c)) for k, c in terms(ex, ly, x)] == [(tm.show(k), tm.show(c)) for k, c in terms(ex, ly, y)]
    def judge(ex, v):
        o = ex.need_adt(v); A, B = ex.ghost["AB"]; tr = ex.ghost.get("trace", [])
        if not o.f: return (H.PROVED, "") if a[0] != "same base" and not tr else (H.REFUTED, "no gcd although the bases agree")
        if a[0] != "same base" and not yes2(ex, ex.ghost): return H.REFUTED, "a gcd of polynomials in different bases"
        if not (isinstance(ex.force(o.f[0]), Opaque) and ex.force(o.f[0]).what == "monic"): return H.REFUTED, "result not made monic"
        x, y = A, B
        for i, (p_, q_, r_) in enumerate(tr):
            if not (sameterms(ex, p_, x) and sameterms(ex, q_, y)): return H.REFUTED, f"step {i} divides other polynomials than the last two remainders"
            x, y = y, r_
        if terms(ex, ly, y): return H.REFUTED, "stops before the remainder is zero"
        return (H.PROVED, "") if sameterms(ex, ex.ghost["monic of"], x) else (H.REFUTED, "does not return the last nonzero remainder")
    st, why, k = rec.drive(C, p, cs, "", run, judge, opts={"nopanic": lambda pe, e: True})
    return a, st, why, list(sym.EXEC)
# ------------------------------------------------------------------ conversion from expressions
def w_from(a):
    kind, ar, pt = a; C, p, ly = _ST; sym.EXEC.clear(); f = getf(p, "try_from_expr")
    cs = dict(den.base_contracts(p))
    for k in list(cs):
        if k.startswith(PM) and k not in (PM + "try_from_expr", PM + "scale"): cs.pop(k)
    def c_from(ex, fn_, x): return den.c_poly_try(ex, fn_, x)
    cs[PM + "try_from_expr"] = c_from
    def c_addas(ex, fn_, x):
        if ex.choose(2, "bases agree") == 1: return False
        s, o = den.ph(ex, x[0]), den.ph(ex, x[1]); ex.store(x[0], den.mkpoly(ex, tm.add(s, o))); return True
    def c_mul(ex, fn_, x):
        if ex.choose(2, "bases agree") == 1: return models.none(ex)
        return models.some(ex, den.mkpoly(ex, tm.mul(den.ph(ex, x[0]), den.ph(ex, x[1]))))
    cs[PM + "try_add_assign"] = c_addas; cs[PM + "try_mul"] = c_mul
    for g in p.fns:
        if "Polynomial" in g["def"] and g["def"].endswith("::clone"): cs[g["def"]] = lambda ex, fn_, x: den.mkpoly(ex, den.ph(ex, x[0]))
    def run(ex):
        IN, ka = rec.setup(ex, ly, kind, ar, poly=pt); return ex.run(f, [Ptr(Cell(IN))])
    rnd = random.Random(2)
    def judge(ex, v):
        o = ex.need_adt(v)
        if not o.f: return H.PROVED, ""
        k = ex.ghost["in"]; return rec.den_judge(ex, den.ph(ex, k), o.f[0], rnd)
    st, why, k = rec.drive(C, p, cs, "", run, judge)
    return a, st, why, list(sym.EXEC)
DIV = [((), (1,)), ((0,), (0,)), ((0,), ()), ((0, 1), (0, 1)), ((1,), (0, 1)), ((0, 1, 2), (0, 1)), ((2,), (0, 1)), ((0, 2), (1,)), ((0, 1, 2), (0, 2)), ((3,), (0, 1)), ((0, 3), (0, 2)), ((0, 1), (0, 2)), ((1, 2), (2,)), ((0, 1), (0,))]
def contractual(C):
    global _ST
    p = mir.prog(); ly = den.lay(p); _ST = C, p, ly
    for a, st, why, fns in par.run(w_op, items(C), C):
        C.fns.update(fns); op, n, m = a
        lab = op + ("" if op in ("constant", "term", "from_base", "zero", "add_term", "term_to_expr") else f"/{n} terms" + (f" and {m} terms" if op.split("/")[0] in ("add", "sub", "mul", "try_mul", "try_add_assign") else ""))
        C.ob(lab, st, why, bounded=None if "/" not in lab or st != H.PROVED else "exactly these numbers of terms, arbitrary powers and coefficients")
    for a, st, why, fns in par.run(w_div, DIV + ([((0, 1, 2, 3), (0, 1)), ((0, 1, 2, 3), (0, 1, 2)), ((4,), (0, 1))] if C.thorough else []), C):
        C.fns.update(fns); C.ob(f"div_rem/powers {a[0]} by {a[1]}", st, why, bounded="exactly these powers, arbitrary coefficients" if st == H.PROVED else None)
    for a, st, why, fns in par.run(w_gcd, [("same base", k) for k in (0, 1, 2, 3)] + [("other base", 2)], C):
        C.fns.update(fns); C.ob(f"gcd/{a[0]}, {a[1]} divisions", st, why, bounded="exactly this number of divisions" if st == H.PROVED else None)
    for a, st, why, fns in par.run(w_from, c17.CASES, C):
        C.fns.update(fns); C.ob(f"try_from_expr/{c17.label(a)}", st, why, bounded=c17.BND(a) if st == H.PROVED else None)
# ------------------------------------------------------------------ bounded stand-ins on the real code
def padd(a, b, s=1):
    d = dict(a)
    for k, c in b.items(): d[k] = d.get(k, Q(0)) + s * c
    return {k: c for k, c in d.items() if c}
def pmul(a, b):
    d = {}
    for k, c in a.items():
        for l, e in b.items(): d[k + l] = d.get(k + l, Q(0)) + c * e
    return {k: c for k, c in d.items() if c}
def pdivrem(a, b):
    q = {}; r = dict(a); n = max(b)
    while r and max(r) >= n:
        m = max(r); c = r[m] / b[n]; q[m - n] = c; r = padd(r, pmul({m - n: c}, b), -1)
    return q, r
def pder(a): return {k - 1: c * k for k, c in a.items() if k}
def fits(a): return all(Q(float(c)) == c for c in a.values())
def enc(a): return f"{len(a)} " + " ".join(f"{k} {R.hx(float(c))}" for k, c in sorted(a.items()))
def dec(s): return [(int(w.split(",")[0]), R.unhx(w.split(",")[1])) for w in s.split()]
def got_ok(s):
    """the coefficient map of a printed polynomial, or a message when it is not canonical"""
    l = dec(s)
    if [k for k, _ in l] != sorted({k for k, _ in l}): return None, f"powers {[k for k, _ in l]} are not strictly increasing"
    if any(c == 0 for _, c in l): return None, "has a zero coefficient"
    return dict(l), None
def close(g, e, tol=0.0, rel=False):
    sc = max([abs(c) for c in e.values()] + [Q(0 if rel else 1)])
    for k in set(g) | set(e):
        x, y = g.get(k, 0.0), e.get(k, Q(0))
        if x != x or abs(x) == float("inf") or abs(Q(x) - y) > Q(tol) * (abs(y) + (sc if tol else 0)): return f"coefficient of power {k} is {x}, should be {float(y)}"
    return None
def rpoly(r, n=4, deg=6, big=False, sc=(1, 1, 1, Q(1, 2), Q(3, 4), 2 ** 20, Q(1, 2 ** 20))):
    ks = r.sample(range(deg + 1), min(r.randint(0, n), deg + 1))
    if big and r.random() < .1: ks = [k * r.choice((1, 7, 100, 1000)) for k in ks]
    return {k: Q(r.choice((-7, -3, -2, -1, 1, 1, 2, 3, 5, 12)) * r.choice(sc)) for k in set(ks)}
BASES = [("s", "x"), ("s", "y"), ("f", "sin", [("s", "x")]), ("+", [("s", "x"), ("s", "y")]), ("f", "exp", [("*", [("n", 2.0), ("s", "x")])])]
def b_op(r, st):
    op = r.choice(["add", "sub", "mul", "mul", "negate", "scale", "derivative", "tryadd", "monic", "div_rem", "div_rem", "div_rem", "gcd"]); base = r.choice(BASES)
    a, b = rpoly(r, big=True), rpoly(r, big=op not in ("div_rem", "gcd"))
    if op == "scale": b = {0: Q(r.choice((-3, -1, 0, 1, 2, Q(1, 2), Q(1, 1024), 2 ** 30)))}; b = {k: c for k, c in b.items() if c}
    if op in ("div_rem", "gcd"):
        # built backwards from quotients so that every step is exact in f64
        ints = lambda n, d: {k: Q(r.choice((-3, -2, -1, 1, 2, 3))) for k in r.sample(range(d + 1), r.randint(1, min(n, d + 1)))}
        if op == "div_rem" and r.random() < .5:
            b = rpoly(r, 3, 3, sc=(1, 1, Q(3, 2), 2)); a = rpoly(r, 5, 7, sc=(1, 1, Q(1, 2), 4))
            if r.random() < .25 and b and a: z = Q(2) ** r.choice((55, 40, 60)); b = {k: c * z for k, c in b.items()}
        else:
            b = ints(3, 3); a = padd(pmul(b, ints(3, 3)), {k: c for k, c in ints(2, 2).items() if k < max(b)} if r.random() < .7 else {})
            if op == "gcd":
                g = ints(3, 2); b = pmul(g, ints(2, 2)); x, y = (b, {}) if r.random() < .1 else (g, {})
                if not y:
                    x, y = g, {}
                    for _ in range(r.randint(1, 3)):
                        q = ints(2, 2); q.setdefault(r.randint(1, 2), Q(1)); x, y = padd(pmul(q, x), y), x
                    a, b = x, y
    line = f"poly {op} {R.enc(base)} {enc(a)} {enc(b)}"; st[op] += 1
    def bad(msg): return f"{op} {base_l(base)} {show(a)} | {show(b)}", msg, {"request": line, "operation": op, "base": R.show(base), "a": show(a), "b": show(b)}
    try: out = R.call(line, 10)
    except R.RPanic as e: return bad(f"panics: {e}")
    except R.Timeout: return bad("does not end within 10 s")
    if out == "-":
        if op == "div_rem" and not b: return None
        return bad("declines")
    if op == "div_rem" and not b: return bad("division by zero succeeds")
    L = [got_ok(s) for s in out.split(" ; ")] if out.strip() or op != "div_rem" else []
    if op == "div_rem": parts = out.split(";"); L = [got_ok(s) for s in parts]
    for g, w in L:
        if w: return bad(f"result {out_show(out)} {w}")
    g = L[0][0]
    if op in ("add", "tryadd", "sub", "mul", "negate", "scale", "derivative"):
        e = {"add": lambda: padd(a, b), "tryadd": lambda: padd(a, b), "sub": lambda: padd(a, b, -1), "mul": lambda: pmul(a, b), "negate": lambda: {k: -c for k, c in a.items()}, "scale": lambda: {k: c * b.get(0, Q(0)) for k, c in a.items() if b}, "derivative": lambda: pder(a)}[op]()
        w = close(g, e, 0.0 if fits(e) else 1e-12)
        return bad(w) if w else None
    if op == "monic":
        e = {k: c / a[max(a)] for k, c in a.items()} if a else {}
        w = close(g, e, 1e-13); return bad(w) if w else None
    if op == "div_rem":
        eq, er = pdivrem(a, b); 
        if any(abs(c) < Q(1, 10 ** 9) for c in list(er.values())): st["tiny remainder"] += 1; return None
        rr = L[1][0]
        if any(k >= max(b) for k in rr): return bad(f"remainder of degree {max(rr)}")
        w = close(g, eq, 1e-11, rel=True)
        if w: return bad("quotient: " + w)
        w = close(rr, er, 1e-9); return bad("remainder: " + w) if w else None
    x, y = a, b
    while y: x, y = y, pdivrem(x, y)[1]
    e = {k: c / x[max(x)] for k, c in x.items()} if x else {}
    w = close(g, e, 1e-12); return bad(w) if w else None
def base_l(b): return R.show(b)
def show(a): return " + ".join(f"{float(c)!r}*X^{k}" for k, c in sorted(a.items())) or "0"
def out_show(o): return " ; ".join(" + ".join(f"{c!r}*X^{k}" for k, c in dec(s)) or "0" for s in o.split(";"))
def evn(t, e):
    v = O.ev(t, e)
    return None if v is None else complex(v.v).real if not hasattr(v.v, "imag") or v.v.imag == 0 else None
def b_expr(r, st):
    base = r.choice(BASES); a = rpoly(r); op = r.choice(["to_expr", "derivative_expr", "terms"]); v = r.choice(["x", "y", "z"])
    line = f"polyexpr {op} {R.esc(v)} {R.enc(base)} {enc(a)}"; st[op] += 1
    try: out = R.dec(R.call(line, 10))
    except (R.RPanic, R.Timeout) as e: return f"{op} {show(a)}", f"fails: {e}", {"request": line}
    B = O.term(base); sp = ZERO
    for k, c in a.items(): sp = tm.add(sp, tm.mul(num(c), tm.powt(B, num(k))))
    if op == "derivative_expr":
        # the outer derivative comes from the power rule, the inner one from the derivation engine of the oracle
        sp = ZERO
        for k, c in a.items():
            if k: sp = tm.add(sp, tm.mul(num(c * k), tm.powt(B, num(k - 1))))
        sp = tm.mul(sp, O.diff(B, v))
    for _ in range(4):
        e = {"x": r.uniform(-1.5, 1.5), "y": r.uniform(.2, 1.5), "z": 1.0}
        x, y = evn(sp, e), evn(O.term(out), e)
        if x is None or y is None: continue
        if abs(x - y) > 1e-8 * (1 + abs(x) + sum(abs(float(c)) * 8 for c in a.values())): return f"{op} {R.show(base)} {show(a)}", f"{op} gives {R.show(out)}: {y} at {e}, should be {x}", {"request": line, "at": e}
    return None
def rtree(r, d, b):
    k = r.random()
    if d <= 0 or k < .25: return b if r.random() < .6 else ("n", float(r.choice((-3, -1, 0, 1, 2, 2.5, 7))))
    if k < .45: return ("+", [rtree(r, d - 1, b) for _ in range(r.randint(2, 3))])
    if k < .65: return ("*", [rtree(r, d - 1, b) for _ in range(r.randint(2, 3))])
    if k < .8: return ("^", rtree(r, d - 1, b), ("n", float(r.choice((0, 1, 2, 3, 4, 2.5, -1)))))
    if k < .9: return ("/", rtree(r, d - 1, b), ("n", r.choice((2.0, -4.0, .5, 3.0))))
    return ("f", "cos", [rtree(r, d - 1, b)])
def b_from(r, st):
    t = rtree(r, 3, r.choice(BASES[:4]))
    if r.random() < .02: t = ("^", ("s", "x"), ("n", r.choice((4294967296.0, 1e10, 4294967295.0))))
    line = f"polyfrom {R.enc(t)}"
    try: out = R.call(line, 10)
    except (R.RPanic, R.Timeout) as e: return f"from {R.show(t)}", f"conversion fails: {e}", {"request": line}
    if out == "-": st["not polynomial"] += 1; return None
    bs, ts = out.split(";"); base = R.dec(bs.strip()); g, w = got_ok(ts); st["converted"] += 1
    if w and w.startswith("powers"): return f"from {R.show(t)}", f"{R.show(t)} converts to a polynomial whose {w}", {"request": line}
    g = dict(dec(ts)); B = O.term(base); sp = ZERO
    if any(k > 10 ** 6 for k in g):
        n = t[2][1]
        if t[0] == "^" and g == {int(n): 1.0}: return None
        if t[0] == "^": return f"from {R.show(t)}", f"{R.show(t)} converts to {out_show(ts)} over {R.show(base)}", {"request": line}
        return None
    for k, c in g.items(): sp = tm.add(sp, tm.mul(num(Q(c)), tm.powt(B, num(k))))
    for _ in range(4):
        e = {"x": r.uniform(-1.5, 1.5), "y": r.uniform(.2, 1.5)}
        try: x, y = evn(O.term(t), e), evn(sp, e)
        except (OverflowError, ZeroDivisionError): continue
        if x is None or y is None or abs(x) > 1e8: continue
        if abs(x - y) > 1e-7 * (1 + abs(x)): return f"from {R.show(t)}", f"{R.show(t)} converts to {out_show(ts)} over {R.show(base)}: {y} at {e}, should be {x}", {"request": line, "at": e}
    return None
def bounded(C):
    BND_.run(C, "operations", b_op, 40000, 400000, "random polynomials of at most 5 terms with dyadic coefficients, exact rational arithmetic as oracle; division also by polynomials with very large or small coefficients; gcd of pairs built from exact division chains", per=500)
    BND_.run(C, "to expressions", b_expr, 6000, 60000, "random polynomials of at most 4 terms over five bases, values at random points", per=200, seed=7)
    BND_.run(C, "from expressions", b_from, 8000, 80000, "random sums, products, powers and quotients of depth 3, values at random points", per=200, seed=9)
def main():
    C = H.Check("C10")
    C.trusted = ["the MIR semantics of vf/sym.py", "sort, binary search and Vec operations of the standard library (vf/models.py)", "for try_from_expr: its recursive calls and the polynomial operations are replaced by the contracts shown here"]
    C.assume = ["coefficients are mathematical reals; |c| < 1e-14 counts as c = 0 (the code's own cut-off)", "powers stay below 2^32"]
    contractual(C); bounded(C); rec.refuted(C); C.finish()
