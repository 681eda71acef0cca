"""C03: building an expression never changes what it denotes.
Contracts: every constructor and operator returns an expression whose denotation is the mathematical combination of its operands'
denotations (wherever the operands are defined).  Each body is run against the contracts of the functions it calls; the hashes used
to find candidates for merging are answered by an arbitrary value, so the argument does not rest on the absence of collisions."""
import random, sys, time, itertools, re
import mpmath
from .. import term as tm, mir, sym, models, den, rec, harness as H, replay as R, oracle as O, par, bnd as BND_, simpdiff
from ..term import num, mk, var, fn, ZERO, ONE
from ..sym import Ex, explore, Sym, SymV, StrSym, IdV, Ptr, Cell, ArcV, BoxV, VecV, Adt, Opaque, Tup
CO = "symb_anafis::core::expr::constructors::"
CTOR = den.CTOR
_ST = None
TASKS = []
NQ, NT = 3, 4

# ------------------------------------------------------------------ contracts
def any_hash(ex, f, a):
    """get_poly_base_hash / get_product_base_hash: an arbitrary function of the expression"""
    k = (f["def"], den.keyof(ex, den.strip(ex, a[0])))
    m = ex.ghost.setdefault("anyhash", {})
    if k not in m:
        m[k] = None if ex.choose(2, "no base") == 1 else den.HashV(("h", k))
    return models.none(ex) if m[k] is None else models.some(ex, m[k])
def hkey(ex, h): return h.o if isinstance(h.o, tuple) else ("n", den.keyof(ex, den.strip(ex, h.o))) if h.o is not None else ("o", id(h))
def eq(ex, x, y):
    hx, hy = isinstance(x, den.HashV), isinstance(y, den.HashV)
    if hx or hy:
        a = hkey(ex, x) if hx else ("k", str(x)); b = hkey(ex, y) if hy else ("k", str(y))
        if a == b: return True
        m = ex.ghost.setdefault("heq", {}); k = (a, b) if repr(a) < repr(b) else (b, a)
        if k not in m: m[k] = ex.choose(2, "hashes equal") == 0
        return m[k]
    return den.eq_hook(ex, x, y)
def c_try_add(ex, f, a):
    """try_add_assign: true and self becomes self + other, or false and self unchanged (C10)"""
    s, o = den.ph(ex, a[0]), den.ph(ex, a[1])
    if ex.choose(2, "try_add_assign") == 1: return False
    p = a[0]
    while isinstance(ex.load(p), Ptr): p = ex.load(p)
    ex.store(p, den.mkpoly(ex, tm.add(s, o))); return True
def c_is_zero(ex, f, a):
    """is_zero: true only if the polynomial denotes 0 (C10)"""
    if ex.choose(2, "is_zero") == 1: return False
    ex.ghost.setdefault("eqd", []).append((den.ph(ex, a[0]), ZERO)); return True
def c_nary(op):
    def h(ex, f, a):
        xs = den.items(ex, a[0])
        return den.mkexpr(ex, op([den.ph(ex, x) for x in xs]))
    return h
def c_poly(ex, f, a): return den.mkexpr(ex, den.ph(ex, a[0]))
def c_to_expr(ex, f, a): return den.mkkind(ex, "Symbol", [ex.force(ex.deref_all(a[0]))])
def contracts(p):
    cs = dict(den.base_contracts(p))
    cs[CTOR + "poly"] = c_poly
    cs[CO + "finalize_sum"] = c_nary(tm.addn); cs[CO + "finalize_product"] = c_nary(tm.muln)
    cs[CO + "get_poly_base_hash"] = any_hash; cs[CO + "get_product_base_hash"] = any_hash
    cs[den.POLYM + "try_add_assign"] = c_try_add; cs[den.POLYM + "is_zero"] = c_is_zero
    cs["symb_anafis::core::symbol::Symbol::to_expr"] = c_to_expr
    cs["symb_anafis::core::expr::hash::compute_expr_hash"] = lambda ex, f, a: den.HashV(None)
    def c_ks(ex, f, a):
        v = ex.force(ex.deref_all(a[0]))
        return v.s if isinstance(v, IdV) else v if isinstance(v, SymV) else den.c_interned(ex, f, a)
    cs["symb_anafis::core::known_symbols::get_interned"] = c_ks; cs["symb_anafis::core::known_symbols::get_symbol"] = c_ks
    cs["symb_anafis::core::expr::next_id"] = lambda ex, f, a: 0
    return cs

LAZY = {"symb_anafis::core::expr::EXPR_ONE": lambda ex: ArcV(Cell(den.mknumber(ex, ONE)))}
# ------------------------------------------------------------------ obligations
def task(name, f, args, spec, bounded=None, drop=(), arity=2, paths=4000):
    """args(ex) -> argument list; spec(ex) -> term the result must denote"""
    TASKS.append((name, f, args, spec, bounded, tuple(drop), arity, paths))
def w_run(i):
    name, f, args, spec, bounded, drop, arity, paths = TASKS[i]; p, cs = _ST
    sym.EXEC.clear(); t0 = time.time()
    own = {f["def"], *drop}
    c2 = {k: h for k, h in cs.items() if k not in own}
    def run(ex):
        ex.arity = arity
        return ex.run(f, args(ex))
    def judge(ex, v): return rec.den_judge(ex, spec(ex), v, random.Random(1))
    st, why, n = rec.drive(None, p, c2, name, run, judge, max_paths=paths, budget=200, opts={"max_dec": 120, "eq": eq, "hash_consts": True, "lazy": LAZY, "fork_unwrap": True})
    if "-t" in sys.argv: print(f"{name}: {st} {why[:160]} {time.time() - t0:.1f}s", flush=True)
    return name, st, why, bounded if st == H.PROVED else None, list(sym.EXEC)
def operand(ex, nm): return ex.ghost.setdefault("ops", {}).setdefault(nm, Sym(nm, den.lay(ex.prog).EX))
def wrap(ex, v, how): return ArcV(Cell(v)) if how == "arc" else v
def nary_args(n, how):
    def args(ex): return [VecV([wrap(ex, operand(ex, f"a{i}"), how) for i in range(n)])]
    return args
def ops(ex): return [den.ph(ex, v) for v in ex.ghost["ops"].values()]
def constructors(C):
    p, cs = _ST; N = NT if C.thorough else NQ
    g = lambda n: p.fn(CTOR + n) or p.fn(CO + n)
    def need(n):
        f = g(n)
        if f is None: C.ob(n, H.UNDECIDED, "not found")
        else: C.fns.add(f["def"])
        return f
    for n, op, how in (("sum", tm.addn, "val"), ("sum_from_arcs", tm.addn, "arc"), ("product", tm.muln, "val"), ("product_from_arcs", tm.muln, "arc"), ("mul_from_arcs", tm.muln, "arc"), ("finalize_sum", tm.addn, "arc"), ("finalize_product", tm.muln, "arc")):
        f = need(n)
        if f is None: continue
        lo = 2 if n == "finalize_sum" else 0
        for k in range(lo, N + 1):
            def spec(ex, k=k, op=op): return op(ops(ex)) if k else (ZERO if op is tm.addn else ONE)
            def args(ex, k=k, how=how):
                ex.ghost.setdefault("ops", {}); return nary_args(k, how)(ex)
            task(f"{n}/{k} operands", f, args, spec, bounded=f"{k} operands, nested sums and products of 2", paths=30000)
    for n, op, how in (("add_expr", tm.add, "val"), ("sub_expr", lambda a, b: tm.add(a, tm.neg(b)), "val"), ("mul_expr", tm.mul, "val"), ("div_expr", tm.div, "val"), ("div_from_arcs", tm.div, "arc"), ("pow_static", den.powd, "val"), ("pow_from_arcs", den.powd, "arc")):
        f = need(n)
        if f is None: continue
        def args(ex, how=how): return [wrap(ex, operand(ex, "a"), how), wrap(ex, operand(ex, "b"), how)]
        def spec(ex, op=op):
            a, b = ops(ex)
            return op(den.expand(ex, a), den.expand(ex, b))
        task(n, f, args, spec)
    f = need("negate")
    if f: task("negate", f, lambda ex: [operand(ex, "a")], lambda ex: tm.neg(ops(ex)[0]))
    f = need("unwrap_arc")
    if f: task("unwrap_arc", f, lambda ex: [wrap(ex, operand(ex, "a"), "arc")], lambda ex: ops(ex)[0])
    f = need("number")
    if f: task("number", f, lambda ex: [var("c")], lambda ex: var("c"))
    f = need("from_interned")
    if f: task("from_interned", f, lambda ex: [SymV("S")], lambda ex: den.sym_term(ex, SymV("S")))
    f = need("new")
    if f:
        for kd in rec.KINDS:
            def args(ex, kd=kd):
                IN, ka = rec.setup(ex, den.lay(ex.prog), kd, 2 if kd in ("Sum", "Product") else 1 if kd == "FunctionCall" else None)
                ex.ghost["inn"] = IN; return [ka]
            task(f"new/{kd}", f, args, lambda ex: den.ph(ex, ex.ghost["inn"]))
    f = need("poly")
    if f:
        for n in range(0, N + 1):
            def args(ex, n=n):
                s = ex.ghost["po"] = Sym("PO", den.lay(ex.prog).PO); ly = den.lay(ex.prog)
                a = ex.refine_to(s, 0); v = a.f[ly.pf["terms"]]; ex.ghost[("veclen", v.id)] = (n, n)
                if n == 0: ex.refine[v.id] = VecV(())
                return [s]
            task(f"poly/{n} terms", f, args, lambda ex: den.ph(ex, ex.ghost["po"]), bounded=f"{n} terms")
    for n, args in (("func_symbol", lambda ex: [SymV("F"), operand(ex, "a")]), ("func_symbol_arc", lambda ex: [SymV("F"), wrap(ex, operand(ex, "a"), "arc")])):
        f = need(n)
        if f: task(n, f, args, lambda ex: den.fn_term(ex, SymV("F"), ops(ex)))
    for n, how in (("func_multi_symbol", "val"), ("func_multi_from_arcs_symbol", "arc")):
        f = need(n)
        if f:
            for k in range(1, N + 1):
                task(f"{n}/{k}", f, (lambda ex, k=k, how=how: [SymV("F"), nary_args(k, how)(ex)[0]]), lambda ex: den.fn_term(ex, SymV("F"), ops(ex)), bounded=f"{k} arguments")
    f = need("derivative_interned")
    if f: task("derivative_interned", f, lambda ex: [operand(ex, "a"), SymV("V"), var("k")], lambda ex: fn("D:V", ops(ex)[0], var("k")))
OPS = {"Add": tm.add, "Sub": lambda a, b: tm.add(a, tm.neg(b)), "Mul": tm.mul, "Div": tm.div}
def arg_of(ex, ty, nm):
    """a value of the argument type and what it denotes"""
    p = ex.prog; t = p.types[ty]; n = p.tname(ty)
    if n.endswith("core::expr::Expr") and t["k"] == "adt":
        v = operand(ex, nm); return v, den.ph(ex, v)
    if n.endswith("core::symbol::Symbol") and t["k"] == "adt":
        s = SymV("sym" + nm); return s, den.sym_term(ex, s)
    if t["k"] == "float": return var("r" + nm), var("r" + nm)
    if t["k"] == "int":
        x = var("i" + nm); ex.ints.add(x); return x, x
    if t["k"] == "ref":
        v, d = arg_of(ex, t["e"], nm); return Ptr(Cell(v)), d
    if "Arc<" in n and "Expr" in n:
        v = operand(ex, nm); return ArcV(Cell(v)), den.ph(ex, v)
    return None
def operators(C):
    p, cs = _ST
    for f in p.fns:
        d = f["def"]
        if not (f.get("local") and f.get("body") and f["kind"] == "Item"): continue
        m = re.search(r"std::ops::(Add|Sub|Mul|Div|Neg)\b[^:]*(?:::[^:]+)*>::(add|sub|mul|div|neg)$", d)
        if not m or "Dual" in d or not ("core::symbol" in d or "core::expr" in d): continue
        tr = m.group(1); b = f["body"]; n = b["argc"]
        def args(ex, b=b, n=n):
            r = [arg_of(ex, b["locals"][1 + i], "ab"[i]) for i in range(n)]
            if any(x is None for x in r): raise sym.Unsupported("argument type")
            ex.ghost["dens"] = [x[1] for x in r]; return [x[0] for x in r]
        def spec(ex, tr=tr):
            a = [den.expand(ex, x) for x in ex.ghost["dens"]]
            return tm.neg(a[0]) if tr == "Neg" else OPS[tr](a[0], a[1])
        C.fns.add(d)
        short = d.replace("symb_anafis::core::symbol::operators::", "").replace("symb_anafis::core::symbol::", "").replace("symb_anafis::core::expr::", "").replace("std::ops::", "").replace("std::sync::", "")
        task("operator " + short, f, args, spec)
    for f in p.fns:
        d = f["def"]
        if not (f.get("local") and f.get("body") and f["kind"] == "Item"): continue
        m = re.search(r"(?:math_methods::<impl [^>]*>|ArcExprExt>)::(\w+)$", d)
        conv = re.search(r"convert::From<.*for symb_anafis::core::expr::Expr>::from$", d)
        if not m and not conv: continue
        b = f["body"]
        if b["argc"] != 1: continue
        nm = m and m.group(1)
        if nm == "pow": continue
        def args(ex, b=b):
            r = arg_of(ex, b["locals"][1], "a")
            if r is None: raise sym.Unsupported("argument type")
            ex.ghost["dens"] = [r[1]]; return [r[0]]
        def spec(ex, nm=nm):
            a = den.expand(ex, ex.ghost["dens"][0])
            return den.fn_term(ex, ex.known_symbol(nm), [a]) if nm else a
        C.fns.add(d)
        short = d.replace("symb_anafis::core::symbol::", "").replace("symb_anafis::core::expr::", "").replace("math_methods::", "").replace("operators::", "").replace("std::sync::", "").replace("std::convert::", "")
        task(("method " if m else "conversion ") + short, f, args, spec)
def contractual(C):
    constructors(C); operators(C)
    order = sorted(range(len(TASKS)), key=lambda i: (not TASKS[i][0].startswith(("finalize", "product_f", "sum")), i))
    for name, st, why, b, fns in par.run(w_run, order, C):
        C.fns.update(fns); C.ob(name, st, why, bounded=b)
# ------------------------------------------------------------------ bounded: constructors and operators of the real code against the oracle
COEF = (0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 3.0, -0.5, 1.5, 4.0, -3.0)
EXPO = (2.0, 3.0, 1.0, 0.0, -1.0, -2.0, 0.5, 1.5, -0.5, 4.0)
def N(c): return ("n", float(c))
def leaf(r): return ("s", r.choice("xyx")) if r.random() < .7 else N(r.choice(COEF))
def base(r):
    x = r.random()
    if x < .5: return ("s", r.choice("xxy"))
    if x < .75: return ("f", r.choice(("sin", "exp", "f")), [leaf(r)])
    if x < .87: return ("+", [("s", "x"), r.choice((N(1), ("s", "y")))])
    return ("d", ("f", "f", [("s", "x")]), "x", 1)
def tree(r, d=2):
    """operand shapes the merging code looks at: multiples and powers of equal bases, polynomials, nested sums and products, zeros and ones"""
    x = r.random()
    if d == 0 or x < .18: return leaf(r) if r.random() < .6 else base(r)
    if x < .30: return ("^", base(r), N(r.choice(EXPO)) if r.random() < .8 else leaf(r))
    if x < .42: return ("*", [N(r.choice(COEF[3:])), base(r)] if r.random() < .5 else [N(r.choice(COEF[3:])), ("^", base(r), N(r.choice((2.0, 3.0))))])
    if x < .56: return ("P", base(r), sorted((k, float(r.choice(COEF[1:]))) for k in r.sample(range(0, 5), r.choice((1, 2, 3)))))
    if x < .70: return ("+", [tree(r, d - 1) for _ in range(r.choice((2, 2, 3)))])
    if x < .84: return ("*", [tree(r, d - 1) for _ in range(r.choice((2, 2, 3)))])
    if x < .92: return ("/", tree(r, d - 1), tree(r, d - 1))
    return ("f", r.choice(("sin", "ln", "sqrt", "f")), [tree(r, d - 1)])
def related(r, t):
    """an operand likely to merge or cancel with t"""
    x = r.random()
    if x < .2: return t
    if x < .4: return ("*", [N(r.choice((-1.0, 2.0, -2.0))), t])
    if x < .6: return ("^", t, N(r.choice((2.0, -1.0, 0.5, 1.0))))
    if x < .7 and t[0] == "^": return t[1]
    if x < .8 and t[0] == "P": return ("P", t[1], [(k, -c if r.random() < .6 else c) for k, c in t[2]])
    return tree(r, 1)
NARY = {"sum": "+", "product": "*", "sumiter": "+", "sumarcs": "+", "prodarcs": "*", "sumshared": "+", "prodshared": "*"}
BINM = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "^", "neg": "n"}
SH = {"s": "s", "S": "s", "f": "n", "i": "n"}
def want(op, l):
    if op == "+": return ("+", l) if len(l) != 1 else l[0]
    if op == "*": return ("*", l) if len(l) != 1 else l[0]
    if op == "-": return ("+", [l[0], ("*", [N(-1), l[1]])])
    if op == "n": return ("*", [N(-1), l[0]])
    return (op, l[0], l[1])
def request(r):
    x = r.random()
    if x < .4:
        op = r.choice(list(NARY)); n = r.choice((0, 1, 2, 2, 3, 3, 4, 5, 7)); l = []
        for _ in range(n): l.append(related(r, r.choice(l)) if l and r.random() < .55 else tree(r, r.choice((0, 1, 1, 2))))
        return ("mk", op, l)
    a = tree(r, r.choice((0, 1, 2))); b = related(r, a) if r.random() < .6 else tree(r, r.choice((0, 1, 2)))
    if x < .7:
        op = r.choice(list(BINM))
        if op == "pow" and r.random() < .7: b = N(r.choice(EXPO + (20.0, 50.0)))
        if op == "pow" and r.random() < .3: a = N(r.choice((0.1, 0.5, 1.1, 2.0, 10.0, -3.0, 0.25)))
        return ("mk", op, [a] if op == "neg" else [a, b])
    sh = r.choice("ee er re rr ef fe rf fr es se rs sr ss sS sf fs Sf fS eS Se ei ie si is n rn sn Sn sp ep spf epf".split())
    def as_(t, c):
        if c in "sS": return ("s", r.choice("xy"))
        if c == "f": return N(r.choice(COEF))
        if c == "i": return N(r.choice((0, 1, -1, 2, -3, 7)))
        return t
    if sh in ("n", "rn"): return ("ops", "-", [a, b], sh)
    if sh in ("sn", "Sn"): return ("ops", "-", [("s", "x"), b], sh)
    if sh in ("sp", "ep", "spf", "epf"): return ("ops", "^", [as_(a, sh[0]), N(r.choice(EXPO)) if sh.endswith("f") else b], sh)
    return ("ops", r.choice("+-*/"), [as_(a, sh[0]), as_(b, sh[1])], sh)
def line(q):
    if q[0] == "mk": return f"mk {q[1]} {len(q[2])} " + " ".join(R.enc(t) for t in q[2])
    return f"ops {q[1]} {q[3]} {R.enc(q[2][0])} {R.enc(q[2][1])}"
def spec_tree(q):
    if q[0] == "mk":
        if q[1] in NARY: return want(NARY[q[1]], q[2]) if q[2] else N(0 if NARY[q[1]] == "+" else 1)
        return want(BINM[q[1]], q[2])
    if q[3] in ("n", "rn", "sn", "Sn"): return want("n", q[2])
    return want(q[1], q[2])
def fault(q, envs, st):
    t = spec_tree(q)
    try: s = R.call(line(q), 10)
    except R.RPanic as e: return ("panic", str(e), None, None)
    if s.startswith("ERR") or s in ("none", "NONE"): st["rejected"] += 1; return None
    try: r = R.dec(s)
    except Exception: st["unreadable"] += 1; return None
    return simpdiff.value_mismatch(t, r, envs, st, True)
def tell(q, w):
    nm = f"{q[1]}({', '.join(R.show(t) for t in q[2])})" + (f" [{q[3]}]" if len(q) > 3 else "")
    if w[0] == "panic": return nm, f"building {nm} panics: {w[1]}", {"request": line(q)}
    return nm, f"{nm} gives {w[1]}; at { {k: float(v) for k, v in w[2].items()} } the operands combine to {w[3][0]}, the result is {w[3][1]}", {"request": line(q), "env": {k: str(v) for k, v in w[2].items()}}
def case(r, st):
    q = request(r); envs = [O.env(r, ["x", "y"], pos=r.random() < .5) for _ in range(4)]
    if q[1] in ("pow", "^"): pass
    elif any(simpdiff.too_steep(t) for t in q[2]): return None
    w = fault(q, envs, st)
    if not w: return None
    rule = w[0]
    for i in range(len(q[2])):
        def bad(c, i=i):
            q2 = (q[0], q[1], q[2][:i] + [c] + q[2][i + 1:]) + tuple(q[3:]); v = fault(q2, envs, st); return bool(v) and v[0] == rule
        if q[0] == "mk" or q[3][min(i, len(q[3]) - 1)] in "er": q[2][i] = BND_.shrunk(q[2][i], bad, 80)
    return tell(q, fault(q, envs, st) or w)
def fold_case(r, st):
    """b^n of two numbers: an exact result may be folded, anything else must stay symbolic"""
    b = r.choice((0.1, 0.5, 0.2, 1.1, 1.5, 2.0, 3.0, -2.0, 10.0, 7.0, -0.25, math_sqrt2, r.uniform(-3, 3))); e = float(r.choice((1, 2, 3, 4, 5, 8, 12, 15, 20, 30, 40)))
    q = ("mk", "pow", [N(b), N(e)]); s = R.dec(R.call(line(q), 10)); st["folded" if s[0] == "n" else "kept"] += 1
    x = mpmath.mpf(b) ** int(e)
    if s[0] == "n":
        if abs(mpmath.mpf(s[1]) - x) > 1e-15 * abs(x): return f"fold {b}^{e}", f"pow_static({b!r}, {e}) folds to {s[1]!r}, the value is {mpmath.nstr(x, 17)}", {"request": line(q)}
    return None
math_sqrt2 = 2 ** .5
def tiny_case(r, st):
    """the documented tolerance: constants below 1e-14 are treated as zero by add, mul, div and sum (known finding)"""
    c = r.choice((1e-15, 6.6e-34, -3e-20)); op = r.choice(("mul", "add", "sum")); q = ("mk", op, [N(c), ("s", "x")]); s = R.dec(R.call(line(q), 10)); st[op] += 1
    if O.ev(O.term(s), {"x": mpmath.mpf(0) if op != "mul" else mpmath.mpf(1)}).v != mpmath.mpf(c): return "tiny-constant", f"{op}({c}, x) gives {R.show(s)}", {"request": line(q)}
    return None
def bounded(C):
    BND_.run(C, "constructors and operators", case, 24000, 240000, "operands of depth at most 3, up to 7 operands, 4 points each, 30-digit oracle", per=300)
    BND_.run(C, "numeric powers", fold_case, 2000, 20000, "positive integer exponents up to 40", per=200, seed=2)
    BND_.run(C, "tiny constants", tiny_case, 40, 200, "three constants below the tolerance", per=20, seed=4)
def main():
    global _ST
    C = H.Check("C03")
    C.trusted = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor and std models", "vf exponential-polynomial normaliser",
                 "assumed contracts: try_from_expr, try_add_assign, is_zero, Polynomial::mul (decided by C10); structural equality implies equal denotation (C11)", "sorting permutes (std)"]
    C.assume = ["f64 arithmetic treated as real arithmetic; the library's 1e-14 zero tolerance treated as exact zero (known finding tiny-constant)", "x^0 = 1, 0/x = 0, x/x = 1 where the operands are defined and the combination is (denominators nonzero)",
                "generic constructors instantiated with caller types (Symbol::pow, log, polygamma ... taking impl Into<Expr>) are covered by the bounded part only"]
    p = mir.prog(); _ST = (p, contracts(p))
    contractual(C); bounded(C); rec.refuted(C); C.finish()
