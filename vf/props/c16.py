"""C16: gradients, Hessians, Jacobians and uncertainty propagation have the right entries.
Contracts: differentiate_by_name(e, v) denotes the partial derivative D_v e (C01, C18) or fails; simplified() keeps the value (C04/C05/C06).
Obligations: index by index, for every expression, every choice of variables and every covariance matrix of the stated size."""
import random, itertools, math, sys, time
from mpmath import mpf
import mpmath
from .. import term as tm, mir, sym, models, den, rec, harness as H, replay as R, oracle as O, simpdiff, par, bnd as BND_
from ..term import num, mk, var, fn, ZERO, ONE
from ..sym import Ex, explore, Sym, SymV, StrSym, Ptr, Cell, ArcV, VecV, Adt, Opaque, Tup
from . import c01
PRE = "symb_anafis::"
def sname(ex, s):
    s = models.S(ex, s)
    if isinstance(s, str): return s
    nm, root = ex.sym_name(s.s); return nm or root
def dterm(ex, e, v):
    """D_v e: an uninterpreted derivative operator; nested applications are ordered as they were applied"""
    return fn("D:" + v, den.expand(ex, e))
def c_diff(ex, f, a):
    v = sname(ex, a[2])
    ex.ghost.setdefault("ndiff", 0); ex.ghost["ndiff"] += 1
    if ex.ghost.get("canfail") and ex.choose(2, "differentiation fails") == 1:
        ex.ghost["failed"] = True; return models.err(ex, Opaque("difference-error"))
    return models.ok(ex, den.mkexpr(ex, dterm(ex, den.ph(ex, a[1]), v)))
def c_simplified(ex, f, a):
    if ex.ghost.get("canfail") and ex.choose(2, "simplification fails") == 1:
        ex.ghost["failed"] = True; return models.err(ex, Opaque("simplify-error"))
    return models.ok(ex, den.mkexpr(ex, den.ph(ex, a[0])))
def contracts(p):
    cs = dict(den.base_contracts(p))
    cs[PRE + "api::builder::Diff::differentiate_by_name"] = c_diff
    cs[PRE + "api::builder::Diff::new"] = lambda ex, f, a: Opaque("diff-builder")
    def c_symbol(ex, f, a):
        x = models.S(ex, a[0]) if not isinstance(ex.deref_all(a[0]), Opaque) else None
        if isinstance(x, str): return den.mkexpr(ex, var("s:" + x))
        k = ex.ghost["nsig"] = ex.ghost.get("nsig", 0) + 1            # the name is text built by format!: the bounded part reads it
        return den.mkexpr(ex, var(f"sigma#{k - 1}"))
    for f in p.fns:
        if f["def"].endswith("Expr::symbol") or f["def"].endswith("Expr>::symbol"): cs[f["def"]] = c_symbol
        if f["def"].endswith("Expr>::simplified") or f["def"].endswith("Expr::simplified"): cs[f["def"]] = c_simplified
        if f["def"].endswith("Symbol::name") and "interned" not in f["def"]: cs[f["def"]] = lambda ex, f, a: models.some(ex, models.S(ex, a[0]))
    return cs
def vars_(ex, n, distinct=True):
    out = []
    for i in range(n): out.append(StrSym(SymV(f"v{i}")))
    return out
def is_ok(ex, v):
    v = ex.need_adt(v); return ex.prog.types[v.ty]["v"][v.var]["n"] == "Ok", v.f[0]
_ST = None
TASKS = []
def run1(C, name, f, args, judge, canfail=False, bounded=None):
    C.fns.add(f["def"]); TASKS.append((name, f, args, judge, canfail, bounded))
def w_run(i):
    name, f, args, judge, canfail, bounded = TASKS[i]; p, cs = _ST
    sym.EXEC.clear(); t0 = time.time()
    def run(ex):
        ex.ghost["canfail"] = canfail
        a = args(ex); return ex.run(f, a)
    st, why, n = rec.drive(None, p, cs, name, run, judge, max_paths=20000, budget=100, opts={"max_dec": 140})
    if time.time() - t0 > 20 and '-t' in sys.argv: print('slow', name, time.time() - t0)
    return name, st, why, bounded if st == H.PROVED else None, list(sym.EXEC)
def discharge(C):
    order = sorted(range(len(TASKS)), key=lambda i: ("3 var" not in TASKS[i][0], i))
    for name, st, why, b, fns in par.run(w_run, order, C):
        C.fns.update(fns); C.ob(name, st, why, bounded=b)
def eq(ex, want, got):
    l, r = ex.nf(den.expand(ex, want)), ex.nf(den.expand(ex, got))
    if l is r or tm.prove_eq(l, r) is True: return True
    s, w, _ = H.judge(ex, l, r, random.Random(1)); return s == H.PROVED if s != H.REFUTED else False
def entries(ex, v, want, depth):
    """compare nested vectors of expressions with nested lists of terms"""
    if depth == 0:
        return None if eq(ex, want, den.ph(ex, v)) else f"is {tm.show(den.expand(ex, den.ph(ex, v)))[:120]}, should be {tm.show(den.expand(ex, want))[:120]}"
    xs = list(ex.need_vec(v).e)
    if len(xs) != len(want): return f"has {len(xs)} entries, should have {len(want)}"
    for i, (x, w) in enumerate(zip(xs, want)):
        q = entries(ex, x, w, depth - 1)
        if q: return f"[{i}]{q}" if q.startswith("[") else f"[{i}] {q}"
def matrix(C):
    p, cs = _ST
    find = lambda n: p.fn(PRE + "api::helpers::" + n)
    for nm, kind in (("gradient_internal", "g"), ("hessian_internal", "h"), ("jacobian_internal", "j"), ("gradient", "g"), ("hessian", "h"), ("jacobian", "j")):
        f = find(nm)
        if f is None: C.ob(nm, H.UNDECIDED, "not found"); continue
        for n in range(0, 4 if kind != "h" else 3):
            for m in ((0, 1, 2) if kind == "j" else (1,)):
                for cf in (False, True):
                    if cf and (n > 2 or m > 2): continue
                    def args(ex, n=n, m=m, kind=kind, nm=nm):
                        vs = vars_(ex, n); ex.ghost["vs"] = vs
                        vals = [Ptr(Cell(x)) if not nm.endswith("internal") else x for x in vs]
                        es = [Sym(f"IN{i}", den.lay(p).EX) for i in range(m)]; ex.ghost["es"] = es
                        e0 = Ptr(Cell(es[0])) if kind != "j" else Ptr(Cell(VecV(es)))
                        return [e0, Ptr(Cell(VecV(vals)))]
                    def judge(ex, v, n=n, m=m, kind=kind, nm=nm):
                        ok, r = is_ok(ex, v)
                        if ex.ghost.get("failed"):
                            return (H.PROVED, "") if not ok else (H.REFUTED, "an entry could not be computed but the result is Ok")
                        if not ok: return H.REFUTED, "fails although every derivative exists"
                        vs = [sname(ex, x) for x in ex.ghost["vs"]]; es = [den.ph(ex, e) for e in ex.ghost["es"]]
                        if kind == "g": want, d = [dterm(ex, es[0], x) for x in vs], 1
                        elif kind == "h": want, d = [[dterm(ex, dterm(ex, es[0], x), y) for y in vs] for x in vs], 2
                        else: want, d = [[dterm(ex, e, x) for x in vs] for e in es], 2
                        q = entries(ex, r, want, d)
                        return (H.REFUTED, "entry " + q) if q else (H.PROVED, "")
                    run1(C, f"{nm}/{n} variables" + (f"/{m} functions" if kind == "j" else "") + ("/failing" if cf else ""), f, args, judge, cf, f"{n} variables" + (f", {m} functions" if kind == "j" else ""))
def covty(p): return p.adt(PRE + "uncertainty::CovarianceMatrix"), p.adt(PRE + "uncertainty::CovEntry")
def mkcov(ex, n, shape):
    """symmetric matrix of the given shape: entry (i,j) numeric or symbolic; returns (value, denotations)"""
    p = ex.prog; M, E = covty(p); vn = {v["n"]: i for i, v in enumerate(p.types[E]["v"])}
    d = [[None] * n for _ in range(n)]; rows = []
    for i in range(n):
        row = []
        for j in range(n):
            a, b = min(i, j), max(i, j); k = shape(a, b); t = var(f"c{a}{b}")
            if k == "num": row.append(Adt(E, vn["Num"], [t])); d[i][j] = t
            else:
                s = ex.ghost.setdefault(("cov", a, b), Sym(f"C{a}{b}", den.lay(p).EX)); row.append(Adt(E, vn["Symbolic"], [s])); d[i][j] = den.ph(ex, s)
        rows.append(VecV(row))
    return Adt(M, 0, [VecV(rows)]), d
def uncertainty(C):
    p, cs = _ST
    for nm in ("uncertainty_propagation", "relative_uncertainty"):
        f = p.fn(PRE + "uncertainty::" + nm)
        if f is None: C.ob(nm, H.UNDECIDED, "not found"); continue
        for n in (0, 1, 2, 3):
            for shape in ("none", "num", "sym", "mixed", "wrong dimension"):
                if n == 0 and shape not in ("none",): continue
                if n == 3 and (shape in ("mixed", "wrong dimension") or not C.thorough): continue
                if nm != "uncertainty_propagation" and (n == 3 or shape in ("mixed", "sym")): continue
                for cf in (False, True):
                    if cf and (shape not in ("num", "none") or n not in (1, 2)): continue
                    def args(ex, n=n, shape=shape):
                        vs = vars_(ex, n); ex.ghost["vs"] = vs; e = Sym("IN0", den.lay(p).EX); ex.ghost["e"] = e
                        if shape == "none": c = models.none(ex)
                        else:
                            k = n + 1 if shape == "wrong dimension" else n
                            sh = {"num": lambda a, b: "num", "sym": lambda a, b: "sym", "mixed": lambda a, b: "num" if a == b else "sym", "wrong dimension": lambda a, b: "num"}[shape]
                            m, d = mkcov(ex, k, sh); ex.ghost["cov"] = d; c = models.some(ex, Ptr(Cell(m)))
                        return [Ptr(Cell(e)), Ptr(Cell(VecV(vs))), c]
                    def judge(ex, v, n=n, shape=shape, nm=nm):
                        ok, r = is_ok(ex, v)
                        if ex.ghost.get("failed"): return (H.PROVED, "") if not ok else (H.REFUTED, "a partial derivative could not be computed but the result is Ok")
                        if shape == "wrong dimension":
                            return (H.PROVED, "") if not ok else (H.REFUTED, "a matrix of the wrong dimension is accepted")
                        if not ok: return H.REFUTED, "fails although every derivative exists and the matrix fits"
                        e = den.ph(ex, ex.ghost["e"]); vs = [sname(ex, x) for x in ex.ghost["vs"]]
                        P = [dterm(ex, e, x) for x in vs]; s = ZERO
                        for i in range(n):
                            for j in range(n):
                                if shape == "none":
                                    if i != j: continue
                                    c = mk("pow", var(f"sigma#{i}"), num(2))
                                else: c = ex.ghost["cov"][i][j]
                                s = tm.add(s, tm.mul(tm.mul(P[i], P[j]), c))
                        want = fn("sqrt", s) if n else ZERO
                        if nm == "relative_uncertainty": want = mk("div", want, fn("abs", e))
                        # skipped terms: covariances and partial derivatives below the zero threshold count as zero
                        l, rr = ex.nf(den.expand(ex, want)), ex.nf(den.expand(ex, den.ph(ex, r)))
                        if l is rr or tm.prove_eq(l, rr) is True: return H.PROVED, ""
                        s_, w, _ = H.judge(ex, l, rr, random.Random(1))
                        if s_ == H.PROVED: return s_, ""
                        # the squares
                        u, q = (l, rr)
                        s2, w2, _ = H.judge(ex, tm.mul(l, l), tm.mul(rr, rr), random.Random(2))
                        return (H.PROVED, "") if s2 == H.PROVED else (s_, f"{w}: {tm.show(rr)[:150]} should be {tm.show(l)[:150]}")
                    run1(C, f"{nm}/{n} variables/{shape}" + ("/failing" if cf else ""), f, args, judge, cf, f"{n} variables")
def main():
    global _ST
    C = H.Check("C16")
    C.trusted = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor and std models (iterators, Result collection)", "vf exponential-polynomial normaliser",
                 "assumed contracts: differentiate_by_name denotes the partial derivative (C01), simplified keeps the value (C04-C06), Expr constructors (C03)"]
    C.assume = ["covariances and partial derivatives below EPSILON = 1e-14 treated as zero (documented tolerance of is_zero_num)", "f64 arithmetic treated as real arithmetic"]
    p = mir.prog(); _ST = p, contracts(p)
    matrix(C); uncertainty(C); covmat(C); discharge(C)
    bounded(C)
    rec.refuted(C)
    C.finish()
# ------------------------------------------------------------------ covariance matrices
EPS = num(1e-14)
def covmat(C):
    p, cs = _ST; M, E = covty(p); vn = {v["n"]: i for i, v in enumerate(p.types[E]["v"])}
    T = PRE + "uncertainty::CovarianceMatrix::"
    entry = lambda ex, t: Adt(E, vn["Num"], [t])
    def fnof(n): return p.fn(T + n)
    def add(nm, lab, args, judge, bounded=None):
        f = fnof(nm) if not nm.startswith("Cov") else p.fn(PRE + "uncertainty::" + nm)
        if f is None: C.ob(nm + lab, H.UNDECIDED, "not found"); return
        run1(C, nm + lab, f, args, judge, False, bounded)
    # new: accepts exactly the square matrices whose numeric pairs agree
    for n in (0, 1, 2, 3):
        shapes = [tuple([n] * n)] + ([tuple([n] * (n - 1) + [n + 1]), tuple([n - 1] + [n] * (n - 1))] if n else [])
        for sh in shapes:
            for mixed in (False, True) if n == 2 else (False,):
                def args(ex, sh=sh, mixed=mixed):
                    rows = []
                    for i, k in enumerate(sh):
                        rows.append(VecV([Adt(E, vn["Symbolic"], [Sym(f"S{i}{j}", den.lay(p).EX)]) if mixed and i > j else entry(ex, var(f"m{i}{j}")) for j in range(k)]))
                    ex.ghost["rows"] = VecV(rows); return [VecV(rows)]
                def judge(ex, v, sh=sh, n=n, mixed=mixed):
                    ok, r = is_ok(ex, v)
                    if any(k != n for k in sh): return (H.PROVED, "") if not ok else (H.REFUTED, "a matrix that is not square is accepted")
                    bad = None if n > 1 and not mixed else False
                    for i in range(n):
                        for j in range(i + 1, n):
                            if mixed: continue
                            d = ex.decide(ex.cmp("lt", fn("abs", tm.sub(var(f"m{i}{j}"), var(f"m{j}{i}"))), EPS))
                            if d is False: bad = True
                    if ok and bad is True: return H.REFUTED, "an asymmetric matrix is accepted"
                    if ok and n > 1 and not mixed and any(ex.decide(ex.cmp("lt", fn("abs", tm.sub(var(f"m{i}{j}"), var(f"m{j}{i}"))), EPS)) is not True for i in range(n) for j in range(i + 1, n)): return H.REFUTED, "accepted without comparing every pair"
                    if not ok and bad is not True: return H.REFUTED, "a symmetric matrix is rejected"
                    if ok:
                        rows = ex.need_vec(ex.need_adt(r).f[0]).e
                        for i, row in enumerate(rows):
                            for j, x in enumerate(ex.need_vec(row).e):
                                x = ex.need_adt(x)
                                if x.var == vn["Num"] and tm.prove_eq(ex.nf(ex.num_of(x.f[0])), ex.nf(var(f"m{i}{j}"))) is not True: return H.REFUTED, f"entry {i},{j} changed"
                    return H.PROVED, ""
                add("new", f"/{'x'.join(map(str, sh)) or 'empty'}{'/mixed' if mixed else ''}", args, judge, f"{n} rows")
    for n in (0, 1, 2, 3):
        def args(ex, n=n): return [VecV([entry(ex, var(f"v{i}")) for i in range(n)])]
        def diag(ex, v, want):
            rows = ex.need_vec(ex.need_adt(v).f[0]).e; n = len(want)
            if len(rows) != n: return H.REFUTED, f"{len(rows)} rows"
            for i, row in enumerate(rows):
                es = ex.need_vec(row).e
                if len(es) != n: return H.REFUTED, f"row {i} has {len(es)} entries"
                for j, x in enumerate(es):
                    x = ex.need_adt(x); w = want[i] if i == j else ZERO
                    g = ex.num_of(x.f[0]) if x.var == vn["Num"] else den.ph(ex, x.f[0])
                    if not eq(ex, w, g): return H.REFUTED, f"entry {i},{j} is {tm.show(den.expand(ex, g))[:80]}"
            return H.PROVED, ""
        add("diagonal", f"/{n}", args, lambda ex, v, n=n, diag=diag: diag(ex, v, [var(f"v{i}") for i in range(n)]), f"{n} variables")
        def args2(ex, n=n): return [Ptr(Cell(VecV(vars_(ex, n))))]
        add("diagonal_symbolic", f"/{n}", args2, lambda ex, v, n=n, diag=diag: diag(ex, v, [mk("pow", var(f"sigma#{i}"), num(2)) for i in range(n)]), f"{n} variables")
    for n in (1, 2, 3):
        for i, j in [(i, j) for i in range(n + 1) for j in range(n + 1)]:
            def args(ex, n=n, i=i, j=j): return [Ptr(Cell(Adt(M, 0, [VecV([VecV([entry(ex, var(f"m{a}{b}")) for b in range(n)]) for a in range(n)])]))), i, j]
            def judge(ex, v, n=n, i=i, j=j):
                v = ex.need_adt(v)
                if i >= n or j >= n: return (H.PROVED, "") if not v.f else (H.REFUTED, "an entry outside the matrix")
                if not v.f: return H.REFUTED, "no entry"
                x = ex.need_adt(ex.deref_all(v.f[0])); return (H.PROVED, "") if eq(ex, var(f"m{i}{j}"), ex.num_of(x.f[0])) else (H.REFUTED, "another entry")
            add("get", f"/{n}/{i},{j}", args, judge, f"{n} variables")
    for lab in ("Num", "Symbolic"):
        def args(ex, lab=lab): return [Ptr(Cell(Adt(E, vn[lab], [var("val") if lab == "Num" else Sym("S", den.lay(p).EX)])))]
        def j1(ex, v, lab=lab): return (H.PROVED, "") if eq(ex, var("val") if lab == "Num" else den.ph(ex, Sym("S", den.lay(p).EX)), den.ph(ex, v)) else (H.REFUTED, "another value")
        add("CovEntry::to_expr", "/" + lab, args, j1)
        def j2(ex, v, lab=lab):
            z = ex.decide(v) if not isinstance(v, bool) else v; val = ex.nf(den.expand(ex, var("val") if lab == "Num" else den.ph(ex, Sym("S", den.lay(p).EX))))
            small = ex.decide(ex.cmp("lt", fn("abs", val), EPS))
            if z is True and small is False: return H.REFUTED, "a value that is not zero counts as zero"
            return H.PROVED, ""
        add("CovEntry::is_zero", "/" + lab, args, j2)
# ------------------------------------------------------------------ bounded comparison on the real code
NM = ["x", "y", "z"]
def gen(r):
    while True:
        g = simpdiff.G2(r, r.choice(["alg", "trig"]), names=tuple(NM), special=r.random() < 0.15, ufs=("f",) if r.random() < 0.15 else (), poly=True)
        t = g.tree(r.choice([1, 2, 2, 3, 3]))
        if O.size(t) < 30 and not simpdiff.too_steep(t) and not any(u[0] == "d" or u[0] == "f" and u[1] in ("floor", "ceil", "round") for u in O.nodes(t)): return t
def envs(r): return [O.env(r, NM, True) for _ in range(3)]
def D(t, *vs):
    for v in vs: t = ("d", t, v, 1)
    return t
def cmpv(t, r, es, st):
    from .c01 import unpartial
    w = simpdiff.value_mismatch(t, unpartial(r), es, st, False)
    return f"is {R.show(r)[:200]}; at { {k: float(v) for k, v in w[2].items()} } that is {w[3][1]}, the true value is {w[3][0]}" if w else None
def rows(s): return [[R.dec(x) for x in row.split(" | ") if x.strip()] for row in s.split(" ; ")]
def text(t):
    try: return R.unesc(R.call("disp " + R.enc(t)))
    except R.RPanic: return None
def unparse(x):
    s = R.call(f"parse {x} 0 1 f")
    return None if s.startswith("ERR") else R.dec(s.split(" ", 1)[1] if s.startswith("OK ") else s)
def matrices(t, t2, vs, es, st, mode):
    k = f"{len(vs)} " + " ".join(vs)
    if mode == "grad": s = R.call(f"grad {k} {R.enc(t)}", 20); want = [[D(t, v) for v in vs]]
    elif mode == "hess": s = R.call(f"hess {k} {R.enc(t)}", 30); want = [[D(t, a, b) for b in vs] for a in vs]
    elif mode == "jac": s = R.call(f"jac {k} 2 {R.enc(t)} {R.enc(t2)}", 30); want = [[D(u, v) for v in vs] for u in (t, t2)]
    else:
        a, b = text(t), text(t2)
        if a is None or b is None: return None
        # the text may read as another expression (that is C12): the entries are compared with the text as read
        e, e2 = unparse(R.esc(a)), unparse(R.esc(b))
        if e is None or e2 is None: return None
        if any(u[0] == "f" and u[1] == "f" for x in (e, e2) for u in O.nodes(x)): return None       # these entry points declare no functions
        if mode == "gradstr": s = R.call(f"gradstr {R.esc(a)} {k}", 20); want = [[D(e, v) for v in vs]]
        elif mode == "hessstr": s = R.call(f"hessstr {R.esc(a)} {k}", 30); want = [[D(e, x, y) for y in vs] for x in vs]
        else: s = R.call(f"jacstr 2 {R.esc(a)} {R.esc(b)} {k}", 30); want = [[D(u, v) for v in vs] for u in (e, e2)]
    if s.startswith("ERR"): st["err"] += 1; return None
    if mode.endswith("str"):
        got = [[unparse(x) for x in row.split()] for row in s.split(" ; ")]
        if any(x is None for row in got for x in row): st["unread"] += 1; return None
    else: got = rows(s)
    if [len(x) for x in got] != [len(x) for x in want]: return ("shape", f"{mode} by {vs} has rows of {[len(x) for x in got]} entries, should be {[len(x) for x in want]}")
    for i, row in enumerate(want):
        for j, w in enumerate(row):
            q = cmpv(w, got[i][j], es, st)
            if q: return ("entry", f"{mode} by {vs}: entry {i},{j} {q}")
def report(kind, key, what, t, extra): return f"{kind}:{key}:{R.show(t)[:120]}", f"{R.show(t)[:300]}: {what}", {"kind": kind, "input": R.enc(t), **extra}
def case_matrix(r, st):
    t, t2 = gen(r), gen(r); vs = r.sample(NM, r.choice([1, 2, 2, 3])); mode = r.choice(["grad", "grad", "hess", "jac", "gradstr", "hessstr", "jacstr"]); es = envs(r)
    if "hess" in mode: vs = vs[:2]
    def f(c):
        if simpdiff.too_steep(c): return None
        try: return matrices(c, t2, vs, es, st, mode)
        except R.RPanic as e: return ("panic", f"{mode} panics: {e}")
    w = f(t)
    if not w: return None
    t = BND_.shrunk(t, lambda c: (f(c) or [0])[0] == w[0], 60); w = f(t) or w
    return report(mode, w[0], w[1] + (f" (second function {R.show(t2)})" if "jac" in mode else ""), t, {"second": R.enc(t2), "vars": vs})
def propagate(t, vs, kind, cov, rel, es, st):
    n = len(vs); flat = [c for row in cov for c in row]
    txt = "none" if kind == "none" else f"diag {n} " + " ".join(R.hx(cov[i][i]) for i in range(n)) if kind == "diag" else f"num {n} " + " ".join(R.hx(c) for c in flat) if kind == "num" else f"sym {n} " + " ".join(R.enc(c) for c in flat)
    s = R.call(f"unc {int(rel)} {n} {' '.join(vs)} {txt} {R.enc(t)}", 30)
    if s.startswith("ERR"): st["err"] += 1; return None
    r = R.dec(s); terms = []
    for i in range(n):
        for j in range(n):
            if kind == "none":
                if i != j: continue
                c = ("^", ("s", "sigma_" + vs[i]), ("n", 2.0))
            else:
                c = cov[i][j]
                if kind == "diag" and i != j: continue
                if not isinstance(c, tuple): c = ("n", c)
            terms.append(("*", [D(t, vs[i]), D(t, vs[j]), c]))
    want = ("+", terms) if len(terms) > 1 else terms[0]
    if rel: want = ("/", want, ("^", t, ("n", 2.0)))
    q = cmpv(want, ("^", r, ("n", 2.0)), es, st)
    if q: return ("value", f"{'relative ' if rel else ''}uncertainty in {vs} ({kind} {[[c if not isinstance(c, tuple) else R.show(c) for c in row] for row in cov] if kind != 'none' else ''}) squared {q}")
def case_unc(r, st):
    t = gen(r); vs = r.sample(NM, r.choice([1, 2, 2, 3])); n = len(vs); kind = r.choice(["none", "diag", "num", "num", "sym"]); rel = r.random() < 0.25
    es = envs(r)
    for e in es:
        for v in NM: e["sigma_" + v] = mpf(r.choice([0.1, 0.25, 0.5, 1.5])); e["s" + v] = mpf(r.choice([0.2, 0.75, 1.25]))
        e["rho"] = mpf(r.choice([0.25, 0.5]))
    # positive definite: A A^T with a dominating diagonal
    cov = [[0.0] * n for _ in range(n)]
    for i in range(n):
        cov[i][i] = r.choice([1.0, 2.0, 4.0, 0.5, 9.0])
        for j in range(i): cov[i][j] = cov[j][i] = r.choice([0.0, 0.125, 0.2, -0.1, 0.25]) if kind != "diag" else 0.0
    if kind == "sym":
        cov = [[("^", ("s", "s" + vs[i]), ("n", 2.0)) if i == j else ("*", [("s", "rho"), ("s", "s" + vs[min(i, j)]), ("s", "s" + vs[max(i, j)])]) for j in range(n)] for i in range(n)]
    def f(c):
        if simpdiff.too_steep(c) or simpdiff.hidden_square(c): return None
        try: return propagate(c, vs, kind, cov, rel, es, st)
        except R.RPanic as e: return ("panic", f"uncertainty propagation panics: {e}")
    w = f(t)
    if not w: return None
    t = BND_.shrunk(t, lambda c: (f(c) or [0])[0] == w[0], 60); w = f(t) or w
    return report("unc", w[0], w[1], t, {"vars": vs, "cov": kind, "relative": rel})
def probes(C):
    """the diagonal, mismatched and asymmetric matrices, tiny variances"""
    x = ("s", "x")
    for what, cmd, ok in (("a covariance matrix of the wrong dimension", f"unc 0 2 x y diag 1 {R.hx(1.0)} {R.enc(('+', [x, ('s', 'y')]))}", False),
                          ("an asymmetric covariance matrix", f"unc 0 2 x y num 2 {R.hx(1.0)} {R.hx(0.5)} {R.hx(0.25)} {R.hx(1.0)} {R.enc(('+', [x, ('s', 'y')]))}", False)):
        s = R.call(cmd, 10)
        if s.startswith("ERR") == ok: C.violate("probe:" + what, f"{what} is {'accepted: ' + s[:100] if not ok else 'rejected'}", {"kind": "probe", "command": cmd})
    s = R.call(f"unc 0 1 x diag 1 {R.hx(1e-16)} {R.enc(x)}", 10)
    r = R.dec(s) if not s.startswith("ERR") else None
    v = O.ev(O.term(r), {}) if r else None
    if v is None or abs(v.v - mpf("1e-8")) > 1e-12: C.violate("tiny-variance", f"a variance of 1e-16 (standard deviation 1e-8) counts as zero: the uncertainty of x is {s if r is None else R.show(r)}", {"kind": "probe", "variance": 1e-16})
def bounded(C):
    b = "random expressions of at most 30 nodes in three variables, 1-3 positive points each"
    BND_.run(C, "gradient_hessian_jacobian", case_matrix, 1600, 20000, b + "; 1-3 variables, symbol and text entry points", per=20)
    BND_.run(C, "uncertainty", case_unc, 1200, 20000, b + "; 1-3 variables; no, diagonal, numeric and symbolic covariance", per=20, seed=3)
    probes(C)
if __name__ == "__main__": main()
