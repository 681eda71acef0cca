"""C01: differentiation.  Contract of derive_impl(e, x): the result denotes d/dx of what e denotes, for every kind of
expression, with the recursive calls and the table/user derivative closures replaced by their contracts (induction on the expression)."""
import random
import mpmath
from mpmath import mpf
from .. import term as tm, mir, sym, models, den, harness as H, replay as R, oracle as O, par
from ..term import num, mk, var, fn, ZERO, ONE
from ..sym import Ex, explore, Sym, SymV, StrSym, IdV, Ptr, Cell, ArcV, VecV, Adt, MapV, Opaque, Tup

ENG = "symb_anafis::diff::engine::<impl symb_anafis::core::expr::Expr>::"
ANA = "symb_anafis::core::expr::analysis::<impl symb_anafis::core::expr::Expr>::"
POLYM = den.POLY + "::"
KINDS = ["Number", "Symbol", "FunctionCall", "Sum", "Product", "Div", "Pow", "Derivative", "Poly"]
def dE(ex, v):
    """denotation of the derivative of a child: its own variable, 0 for literals and for children without the variable"""
    v = den.strip(ex, v); k = den.kind_of(ex, v)
    if k is not None and ex.prog.types[k.ty]["v"][k.var]["n"] == "Number": return ZERO
    key = den.keyof(ex, v)
    if ex.ghost.get(("contains", key)) is False: return ZERO
    return var("dE:" + key)
def c_derive(ex, f, a):
    d = dE(ex, a[0]); r = den.mkexpr(ex, d)
    pin = ex.ghost.get("nonlit")
    if pin is not None and den.keyof(ex, den.strip(ex, a[0])) in pin:      # stated bound: these derivatives are not literals
        k = ex.refine_to(r, 0).f[den.lay(ex.prog).ef["kind"]]
        ex.excl.setdefault(k.id, set()).add(den.lay(ex.prog).kv["Number"])
    return r
def c_contains(ex, f, a):
    v = den.strip(ex, a[0]); k = den.kind_of(ex, v)
    if k is not None and ex.prog.types[k.ty]["v"][k.var]["n"] == "Number": return False
    key = ("contains", den.keyof(ex, v))
    if key not in ex.ghost: ex.ghost[key] = ex.choose(2, "contains") == 0
    return ex.ghost[key]
def c_polyderiv(ex, f, a): return den.mkpoly(ex, mk("fn", "Pd:" + den.keyof(ex, den.strip(ex, a[0]))))
def contracts(p):
    cs = dict(den.base_contracts(p))
    cs[ENG + "derive_impl"] = c_derive
    cs[ENG + "derive_raw"] = c_derive
    cs[ENG + "derive"] = c_derive
    for n in ("contains_var", "contains_var_id", "contains_var_str"): cs[ANA + n] = c_contains
    cs["symb_anafis::functions::registry::Registry::get_by_symbol"] = c_reg
    cs["symb_anafis::functions::registry::FunctionDefinition::validate_arity"] = lambda ex, f, a: ex.choose(2, "arity ok") == 0
    cs["symb_anafis::core::unified_context::Context::get_user_fn_by_id"] = c_ufn
    cs["symb_anafis::core::unified_context::Context::get_user_fn"] = c_ufn
    cs[ENG + "symbolic_partial"] = lambda ex, f, a: den.mkexpr(ex, part(ex, int(ex.nf(ex.num_of(a[2])).a[0])))
    cs[den.CTOR + "derivative_interned"] = lambda ex, f, a: den.mkkind(ex, "Derivative", dfields(ex, a[0], den.symval(ex, a[1]), a[2]))
    cs[den.CTOR + "derivative"] = cs[den.CTOR + "derivative_interned"]
    cs[POLYM + "derivative"] = c_polyd
    return cs
def c_polyd(ex, f, a):
    """contract of Polynomial::derivative (decided by C10): denotes dP/d(base)"""
    ex.ghost["pdvar"] = True
    return den.mkpoly(ex, var("PD:" + den.keyof(ex, den.strip(ex, a[0]))))
def dfields(ex, inner, s, order):
    ly = den.lay(ex.prog)
    g = {"inner": ArcV(Cell(den.strip(ex, inner))), "var": s, "order": order}
    return [g[n] for n in ly.kf["Derivative"]]
def fname(ex):
    s = ex.ghost["fname"]; nm, root = ex.sym_name(s)
    return den.ALIAS.get(nm, nm) if nm else "uf:" + root
def argterms(ex): return [den.ph(ex, x) for x in ex.ghost["args"]]
def c_reg(ex, f, a):
    if ex.choose(2, "built-in") == 1: return models.none(ex)
    ex.ghost["builtin"] = True
    # a definition: its derivative satisfies the C02 contract; arity is whatever validate_arity answers
    ty = ex.prog.adt("symb_anafis::functions::registry::FunctionDefinition")
    s = Sym(ex.fresh_id("def"), ty); d = ex.refine_to(s, 0)
    i = [n for n, _ in ex.prog.types[ty]["v"][0]["f"]].index("derivative")
    fs = list(d.f); fs[i] = Opaque("table-derivative")
    return models.some(ex, Ptr(Cell(Adt(d.ty, d.var, fs))))
def c_ufn(ex, f, a):
    if ex.choose(2, "user fn") == 1: return models.none(ex)
    ex.ghost["user"] = True
    n = len(ex.ghost["args"]); kv = []
    for i in range(n):
        if ex.choose(2, f"partial {i}") == 0: kv.append((num(i), ArcV(Cell(Opaque(("partial", i))))))
    ty = ex.prog.adt("symb_anafis::core::unified_context::UserFunction")
    s = Sym(ex.fresh_id("ufn"), ty); d = ex.refine_to(s, 0)
    j = [m for m, _ in ex.prog.types[ty]["v"][0]["f"]].index("partials")
    fs = list(d.f); fs[j] = MapV(kv)
    return models.some(ex, Ptr(Cell(Adt(d.ty, d.var, fs))))
def opaque_call(ex, f, args):
    w = getattr(f, "what", None)
    if w == "table-derivative":
        xs = ex.need_vec(args[0]).e; ps = ex.need_vec(args[1]).e
        if len(xs) != len(ex.ghost["args"]) or any(den.strip(ex, x) is not den.strip(ex, y) and den.keyof(ex, x) != den.keyof(ex, y) for x, y in zip(xs, ex.ghost["args"])): raise sym.Unsupported("derivative called on other arguments")
        if len(ps) != len(xs): raise sym.Panic("wrong number of argument derivatives")
        t = ZERO
        for i, q in enumerate(ps): t = tm.add(t, tm.mul(part(ex, i), den.ph(ex, q)))
        return den.mkexpr(ex, t)
    if isinstance(w, tuple) and w[0] == "partial":
        xs = ex.need_vec(args[0] if len(args) == 1 else args[-1]).e
        if len(xs) != len(ex.ghost["args"]) or any(den.keyof(ex, den.strip(ex, x)) != den.keyof(ex, den.strip(ex, y)) for x, y in zip(xs, ex.ghost["args"])): raise sym.Unsupported("partial called on other arguments")
        return den.mkexpr(ex, part(ex, w[1]))
    raise sym.Unsupported("call of an unknown function value")
def part(ex, i): return tm.partial(fname(ex), argterms(ex), i) if not fname(ex).startswith("uf:") else mk("fn", ("partial", fname(ex), i), *argterms(ex))
# ------------------------------------------------------------------ one kind
def setup(ex, ly, kind, arity):
    IN = Sym("IN", ly.EX); ex.ghost["in"] = IN
    a = ex.refine_to(IN, 0); k = ex.force(a.f[ly.ef["kind"]]); ka = ex.refine_to(k, ly.kv[kind])
    x = SymV("dvar")
    ex.symexcl.setdefault("dvar", set()).update({"pi", "e", "PI", "Pi", "E"})
    if kind in ("Sum", "Product") and arity:
        v = ka.f[0]; ex.ghost[("veclen", v.id)] = (arity, arity)
    if kind == "FunctionCall":
        i, j = ly.kf[kind].index("name"), ly.kf[kind].index("args")
        v = ka.f[j]; ex.ghost[("veclen", v.id)] = (arity, arity)
        ex.ghost["fname"] = ex.force(ka.f[i]); ex.ghost["args"] = ex.need_vec(v).e
    return IN, ka, x
def spec(ex, ly, kind, IN, ka, x):
    g = dict(zip(ly.kf[kind], ka.f))
    if kind == "Derivative":
        return None
    if kind == "Poly":
        po = den.strip(ex, ka.f[0]); key = den.keyof(ex, po)
        b = ex.need_adt(po).f[ly.pf["base"]]
        return tm.mul(var("PD:" + key), dE(ex, b))
    t = den.kind_den(ex, ka)
    if kind == "Symbol":
        s = ex.force(ka.f[0]); nm, _ = ex.sym_name(s)
        return ONE if ex.sym_eq(s, x) else ZERO
    def dv(v):
        if not (isinstance(v.a[0], str) and v.a[0].startswith("E:")): return ZERO
        return dE(ex, den.reg(ex)[v])
    return tm.D(t, dv)
def one(C, p, cs, ly, kind, arity, budget):
    f = p.fn(ENG + "derive_impl")
    obn = f"derive_impl[{kind}{'/' + str(arity) if arity else ''}]"
    def make(dec): return Ex(p, cs, models, dec, den.opts(max_dec=80, max_steps=200000, opaque_call=opaque_call))
    def run(ex):
        IN, ka, x = setup(ex, ly, kind, arity)
        ex.ghost["x"] = x, ka
        if kind == "Product" and arity > 4: ex.ghost["nonlit"] = {den.keyof(ex, den.strip(ex, y)) for y in ex.need_vec(ka.f[0]).e[3:]}
        ctx = Sym("ctx0", p.types[f["body"]["locals"][4]]["e"])
        return ex.run(f, [Ptr(Cell(IN)), StrSym(x), IdV(x), Ptr(Cell(ctx))])
    r = explore(make, run, 6000 if C.thorough else 1500, budget)
    return judge_paths(C, obn, r, p, ly, kind)
def judge_paths(C, obn, r, p, ly, kind):
    st, why, n, wit = H.PROVED, "", 0, None
    for e, _ in r.unsupported: st, why = H.UNDECIDED, "unsupported: " + e
    for e, _ in r.panics: st, why = H.UNDECIDED, "panic path: " + str(e)
    if r.cut: st, why = H.UNDECIDED, f"cut {r.cut[0][0]}"
    for ex, v in r.paths:
        n += 1
        try:
            den.finish(ex)
            x, ka = ex.ghost["x"]; IN = ex.ghost["in"]
            if kind == "Derivative":
                s, w, wt = judge_derivative(ex, ly, ka, x, v); rr = l = ZERO
            else:
                l = den.expand(ex, spec(ex, ly, kind, IN, ka, x)); rr = den.expand(ex, den.ph(ex, v))
                s, w, wt = H.judge(ex, l, rr, C.rnd)
                if s == H.REFUTED and w.startswith("right side undefined"): s = H.UNDECIDED
        except sym.Infeasible: continue
        except den.Malformed: continue
        except Exception as e: st, why = H.UNDECIDED, f"{type(e).__name__} {e}"; continue
        if s != H.PROVED and st != H.REFUTED: st, why, wit = s, f"{w}: {tm.show(rr)[:220]} should be {tm.show(l)[:220]}", wt
    return obn, st, why or f"{n} paths", n
def judge_derivative(ex, ly, ka, x, v):
    """d/dx of the node 'n-th derivative of u by y' is: same node with order n+1 (y = x), 0 (u does not depend on x), or d/dx of that node"""
    g = dict(zip(ly.kf["Derivative"], ka.f))
    y = ex.force(g["var"]); k = den.kind_of(ex, v)
    if k is None: return H.UNDECIDED, "opaque result", None
    n = ex.prog.types[k.ty]["v"][k.var]["n"]; h = dict(zip(ly.kf.get(n, []), k.f))
    dep = ex.ghost.get(("contains", den.keyof(ex, den.strip(ex, g["inner"]))))
    if n == "Number":
        if ex.nf(ex.num_of(k.f[0])) is ZERO and not ex.sym_eq(x, y) and dep is False: return H.PROVED, "", None
        if dep is False and ex.nf(ex.num_of(k.f[0])) is ZERO and ex.sym_eq(x, y): return H.PROVED, "", None
        return H.REFUTED, "derivative of an unevaluated derivative is a number", None
    if n != "Derivative": return H.UNDECIDED, "result kind " + n, None
    if not ex.sym_eq(ex.force(h["var"]), x): return H.REFUTED, "differentiated by another variable", None
    inner = den.strip(ex, h["inner"])
    if den.keyof(ex, inner) == den.keyof(ex, den.strip(ex, g["inner"])):
        s, w, wt = H.judge(ex, ex.num_of(h["order"]), tm.add(ex.num_of(g["order"]), ONE), random.Random(1))
        if not ex.sym_eq(x, y): return H.REFUTED, "order raised for another variable", None
        return s, w, wt
    ik = den.kind_of(ex, inner)
    if ik is None or ex.prog.types[ik.ty]["v"][ik.var]["n"] != "Derivative": return H.REFUTED, "inner expression lost", None
    q = dict(zip(ly.kf["Derivative"], ik.f))
    ok = den.keyof(ex, den.strip(ex, q["inner"])) == den.keyof(ex, den.strip(ex, g["inner"])) and ex.sym_eq(ex.force(q["var"]), y)
    s, w, wt = H.judge(ex, ex.num_of(q["order"]), ex.num_of(g["order"]), random.Random(1))
    s2, _, _ = H.judge(ex, ex.num_of(h["order"]), ONE, random.Random(1))
    if ok and s == H.PROVED and s2 == H.PROVED: return H.PROVED, "", None
    return H.REFUTED, "inner derivative node changed", None
# ------------------------------------------------------------------ contains_var
def contains(C, p, cs, ly):
    """contains_var_id(e) answers false only if no child contains the variable and e is not the variable (and true otherwise)"""
    for nm, mkarg in (("contains_var_id", lambda x: IdV(x)), ("contains_var_str", lambda x: StrSym(x))):
        f = p.fn(ANA + nm)
        if f is None: C.ob(nm, H.UNDECIDED, "not found"); continue
        for kind in KINDS:
            obn = f"{nm}[{kind}]"
            def make(dec): return Ex(p, cs, models, dec, den.opts(max_dec=60, max_steps=60000, arity=3))
            def run(ex):
                IN, ka, x = setup(ex, ly, kind, 0 if kind != "FunctionCall" else 2)
                ex.ghost["x"] = x, ka
                return ex.branch(ex.run(f, [Ptr(Cell(IN)), mkarg(x)]))
            r = explore(make, run, 300, 20)
            st, why, n = H.PROVED, "", 0
            for e, _ in r.unsupported: st, why = H.UNDECIDED, e
            if r.cut: st, why = H.UNDECIDED, "cut"
            for e, _ in r.panics: st, why = H.UNDECIDED, "panic " + e
            for ex, v in r.paths:
                n += 1; x, ka = ex.ghost["x"]; g = dict(zip(ly.kf[kind], ka.f))
                if kind == "Number": own, ch = False, []
                elif kind == "Symbol": own, ch = ex.sym_eq(ex.force(ka.f[0]), x), []
                elif kind == "FunctionCall": own, ch = False, list(ex.ghost["args"])
                elif kind in ("Sum", "Product"): own, ch = False, list(ex.need_vec(ka.f[0]).e)
                elif kind in ("Div", "Pow"): own, ch = False, list(ka.f)
                elif kind == "Derivative": own, ch = ex.sym_eq(ex.force(g["var"]), x), [g["inner"]]
                else: own, ch = False, [ex.need_adt(den.strip(ex, ka.f[0])).f[ly.pf["base"]]]
                vals = [ex.ghost.get(("contains", den.keyof(ex, den.strip(ex, c)))) for c in ch]
                kn = [den.kind_of(ex, den.strip(ex, c)) for c in ch]
                vals = [False if k is not None and p.types[k.ty]["v"][k.var]["n"] == "Number" else b for k, b in zip(kn, vals)]
                if v is True and not (own or any(b is True for b in vals)): st, why = H.REFUTED, "true without an occurrence"
                if v is False and (own or any(b is not False for b in vals)): st, why = H.REFUTED, "false although a child contains the variable"
            bounded = "n-ary nodes up to 3 operands" if kind in ("Sum", "Product", "FunctionCall") else None
            C.ob(obn, st, why or f"{n} paths", bounded=bounded if st == H.PROVED else None)
            if st == H.REFUTED: refuted(C, obn, why)
def refuted(C, obn, why):
    w = search(C, obn)
    if w: report(C, w)
    elif C.baseline.get(obn) in (H.PROVED, "bounded"): C.violate("diff:" + obn, f"obligation {obn}: {why}", {"kind": "obligation", "obligation": obn, "verifier": why}, confirmed=False)
    else: C.notes.append(f"refuted without confirmation: {obn} {why}")
_ST = None
def task(a):
    kind, arity, budget = a
    C, p, cs, ly = _ST
    sym.EXEC.clear()
    r = one(C, p, cs, ly, kind, arity, budget)
    return a, r, list(sym.EXEC)
def main():
    global _ST
    C = H.Check("C01")
    C.trusted = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor and std models", "vf exponential-polynomial normaliser",
                 "assumed contracts: Expr constructors (C03), table derivatives (C02), Polynomial::derivative (C10)", "symbolic_partial / Derivative nodes as notation for the partial derivative"]
    C.assume = ["f64 arithmetic treated as real arithmetic", "the variable is not named pi or e", "user-supplied partial derivatives are the partial derivatives of the user's function", "derivative order below u32::MAX"]
    p = mir.prog(); cs = contracts(p); ly = den.lay(p)
    _ST = C, p, cs, ly
    tasks = [(k, 0, 60) for k in KINDS if k not in ("FunctionCall", "Sum", "Product")]
    tasks += [("FunctionCall", k, 90) for k in (1, 2, 3) + ((4,) if C.thorough else ())]
    tasks += [(s, k, 60) for s in ("Sum", "Product") for k in (2, 3) + ((4,) if C.thorough else ())]
    tasks += [("Product", 11, 100)]
    for a, (obn, st, why, n), fns in par.run(task, tasks, C):
        C.fns.update(fns)
        b = f"exactly {a[1]} operands" + (", derivatives of all but three of them not literals" if a[1] > 4 else "") if a[0] in ("Sum", "Product", "FunctionCall") else None
        C.ob(obn, st, why, bounded=b if st == H.PROVED else None)
        if st == H.REFUTED: refuted(C, obn, why)
    contains(C, p, cs, ly)
    bounded(C)
    C.finish()
# ------------------------------------------------------------------ bounded: the real derivative against the derivative of the denotation
def gen(rnd, i):
    g = O.Gen(rnd, deriv=False, special=rnd.random() < 0.4)
    t = g.tree(rnd.choice([1, 2, 2, 3, 3]))
    if i % 23 == 0: t = ("*", [g.tree(1) for _ in range(rnd.choice([11, 12, 13]))])
    return t
def case(t, v, rnd, st, user):
    """returns witness or None"""
    try:
        if user: s = R.call(f"diff {v} 0 1 - - 0 " + R.enc(t), 12)
        else: s = R.call(f"draw {v} " + R.enc(t), 12)
    except R.Timeout: return None
    if s.startswith("ERR"): st["err"] = st.get("err", 0) + 1; return None
    r = R.dec(s.split(" ", 1)[1] if s.startswith("OK ") else s)
    try: a = O.diff(O.term(t), v)
    except Exception: return None
    names = sorted(O.names(t) | {v})
    for _ in range(3):
        env = O.env(rnd, names, rnd.random() < 0.6)
        try:
            b = val(r, env)
            x = O.ev(a, env)
        except Exception: continue
        if x is None or b is None: continue
        st["points"] = st.get("points", 0) + 1
        if not O.same(x, b, 1e-6): return (t, v, r, env, x.v, b.v)
    return None
def val(r, env): return O.ev(O.term(unpartial(r)), env)
PART = {}
def unpartial(t):
    """the library's notation for unknown partials, D[f(args), arg_i], as the function 'partial'"""
    k = t[0]
    if k == "d" and t[2].startswith("arg") and t[2][3:].isdigit() and t[1][0] == "f": return ("pf", t[1][1], int(t[2][3:]), [unpartial(x) for x in t[1][2]], t[3])
    if k in "+*": return (k, [unpartial(x) for x in t[1]])
    if k in "/^": return (k, unpartial(t[1]), unpartial(t[2]))
    if k == "f": return ("f", t[1], [unpartial(x) for x in t[2]])
    if k == "P": return ("P", unpartial(t[1]), t[2])
    if k == "d": return ("d", unpartial(t[1]), t[2], t[3])
    return t
_term = O.term
def term2(t, ufs=None, bind=None, memo=None):
    if t[0] == "pf":
        a = [O.term(x) for x in t[3]]; z = [var("\0z%d" % i) for i in range(len(a))]
        u = O.term(("f", t[1], [("s", "\0z%d" % i) for i in range(len(a))]))
        for _ in range(t[4]): u = O.diff(u, "\0z%d" % t[2])
        return tm.subst(u, dict(zip(z, a)))
    return _term(t, ufs, bind, memo)
O.term = term2
def search(C, obn):
    rnd = random.Random(C.seed * 7 + 3); st = {}
    for i in range(3000):
        t = gen(rnd, i); v = rnd.choice(["x", "y"])
        try: w = case(t, v, rnd, st, False)
        except (R.RPanic, R.Timeout): continue
        if w: return shrink(w, rnd)
    return None
def shrink(w, rnd):
    t, v = w[0], w[1]
    bad = lambda u: case(u, v, random.Random(5), {}, False) is not None
    try:
        t2 = O.shrink(t, bad, 150); w2 = case(t2, v, random.Random(5), {}, False)
        return w2 or w
    except Exception: return w
def report(C, w):
    t, v, r, env, x, b = w
    C.violate("diff:" + shape(t), f"d/d{v} of {R.show(t)} is returned as {R.show(r)}; at {({k: float(z) for k, z in env.items()})} that is {mpmath.nstr(b, 12)}, the derivative is {mpmath.nstr(x, 12)}",
              {"kind": "diff", "expr": R.show(t), "tree": t, "var": v, "result": R.show(r), "env": {k: float(z) for k, z in env.items()}, "got": b, "expected": x})
def shape(t):
    k = t[0]
    return k if k != "f" else t[1]
def work(a):
    seed, n = a
    rnd = random.Random(seed); st = {}; out = []; N = 0
    for i in range(n):
        t = gen(rnd, i); v = rnd.choice(["x", "x", "y"]); N += 1
        try: w = case(t, v, rnd, st, False)
        except R.RPanic as e:
            out.append(("panic", t, v, str(e))); break
        except R.Timeout: continue
        if w: out.append(shrink(w, rnd)); break
    return N, st, out
def bounded(C):
    n = 3000 if C.thorough else 500; pts = N = 0
    for k, st, out in par.run(work, [(C.seed * 1009 + i, n) for i in range(16)], C):
        N += k; pts += st.get("points", 0)
        for w in out:
            if w[0] == "panic": C.violate("diff-panic", f"differentiating {R.show(w[1])} by {w[2]} panicked: {w[3]}", {"kind": "diff", "expr": R.show(w[1]), "tree": w[1], "var": w[2]})
            else: report(C, w)
    N += userpart(C)
    C.bounded["derive_vs_derivative_of_denotation"] = {"cases": N, "points": pts, "bound": "random expressions to depth 3 and products of 11-13 factors, up to 3 points each, seeded"}
def userpart(C): return 0
