"""C17: evaluation under an assignment, substitution, variable queries.
evaluate/map/substitute/deep_clone preserve the denotation of every node kind, given that they do on its children."""
import random, collections
from mpmath import mpf
from .. import term as tm, mir, sym, models, den, rec, harness as H, replay as R, oracle as O, par, simpdiff, bnd as BND_
from ..term import num, mk, var, fn, ZERO, ONE
from ..sym import Ex, explore, Sym, SymV, StrSym, IdV, Ptr, Cell, ArcV, VecV, Adt, MapV, Opaque, Tup
from . import c01
ANA = c01.ANA
EV = "symb_anafis::core::expr::evaluate::<impl symb_anafis::core::expr::Expr>::evaluate"
def known(ex, s):
    """the assignment: every symbol is either unknown or has the value of the variable named after it"""
    nm, root = ex.sym_name(s); k = ("known", root)
    if k not in ex.ghost: ex.ghost[k] = True if ex.ghost.get("full") else ex.choose(2, "known " + str(nm or root)) == 0
    return ex.ghost[k]
def valof(ex, s):
    nm, root = ex.sym_name(s); return var("s:" + (nm or root))
def c_get(ex, f, a):
    s = den.symval(ex, a[-1])
    hide = ex.ghost.get("hidden")
    if hide is not None and ex.sym_eq(s, hide): return models.none(ex)
    return models.some(ex, valof(ex, s)) if known(ex, s) else models.none(ex)
def c_eval(ex, f, a):
    """contract of the recursive call: denotes what the child denotes under the assignment; a number if everything is known"""
    ex.ghost.setdefault("calls", []).append((rec.key(ex, a[0]), a[1] if len(a) > 1 else None))
    t = rec.sig(ex, a[0])
    return den.mknumber(ex, t) if ex.ghost.get("full") or den.numlit(ex, a[0]) is not None else den.mkexpr(ex, t)
def defn(ex):
    ty = ex.prog.adt("symb_anafis::functions::registry::FunctionDefinition")
    s = Sym(ex.fresh_id("def"), ty); d = ex.refine_to(s, 0)
    i = [n for n, _ in ex.prog.types[ty]["v"][0]["f"]].index("eval")
    fs = list(d.f); fs[i] = Opaque("table-eval"); return Ptr(Cell(Adt(d.ty, d.var, fs)))
def c_reg(ex, f, a): return models.none(ex) if ex.choose(2, "built-in") == 1 else models.some(ex, defn(ex))
def c_arity(ex, f, a):
    """whether the argument count is right is the table's business (C15); a wrong count leaves the call undefined"""
    ok = ex.choose(2, "argument count accepted") == 0
    if not ok: ex.ghost["declined"] = True
    return ok
def opaque_call(ex, f, args):
    w = getattr(f, "what", None)
    if w in ("table-eval", "custom-eval"):
        if len(args) == 1 and isinstance(ex.force(args[0]), Tup): args = list(args[0].f)
        xs = ex.need_vec(args[-1]).e
        if ex.choose(2, "declines") == 1: ex.ghost["declined"] = True; return models.none(ex)
        return models.some(ex, den.fn_term(ex, ex.ghost["fname"], [ex.num_of(x) for x in xs]))
    raise sym.Unsupported("call of an unknown function value")
class CustomMap: pass
def contracts(p):
    cs = dict(den.base_contracts(p))
    cs[EV] = c_eval
    cs["symb_anafis::core::symbol::interned::InternedSymbol::name"] = lambda ex, f, a: models.some(ex, models.S(ex, den.symval(ex, a[0])))   # named symbols
    for f in p.fns:
        if f["def"].endswith("VarLookup>::get_value") or f["def"].endswith("VarLookup::get_value"): cs[f["def"]] = c_get
    cs["symb_anafis::functions::registry::Registry::get_by_symbol"] = c_reg
    cs["symb_anafis::functions::registry::FunctionDefinition::validate_arity"] = c_arity
    cs[den.CTOR + "poly"] = lambda ex, f, a: den.mkexpr(ex, den.ph(ex, a[0]))
    cs[den.CTOR + "from_interned"] = lambda ex, f, a: den.mkkind(ex, "Symbol", [den.symval(ex, a[0])])
    cs[den.CTOR + "derivative_interned"] = lambda ex, f, a: den.mkkind(ex, "Derivative", c01.dfields(ex, a[0], den.symval(ex, a[1]), a[2]))
    cs[den.CTOR + "derivative"] = cs[den.CTOR + "derivative_interned"]
    for f in p.fns:
        if "HashMap" in f["def"] and f["def"].endswith("::get"): cs[f["def"]] = c_hget
    return cs
def c_hget(ex, f, a):
    m = ex.deref_all(a[0])
    if isinstance(m, Opaque) and m.what == "customs":
        return models.none(ex) if ex.choose(2, "custom") == 1 else models.some(ex, Ptr(Cell(ArcV(Cell(Opaque("custom-eval"))))))
    return NotImplemented
CASES = [("Number", 0, None), ("Symbol", 0, None), ("Div", 0, None), ("Pow", 0, None), ("Derivative", 0, None)] + [("FunctionCall", k, None) for k in (0, 1, 2, 3)] + [(s, k, None) for s in ("Sum", "Product") for k in (1, 2, 3)] + [("Poly", 0, k) for k in (0, 1, 2, 3)]
def label(c): return c[0] + (f"/{c[1]}" if c[0] in ("FunctionCall", "Sum", "Product") else "") + (f"/{c[2]} terms" if c[0] == "Poly" else "")
_ST = None
def spec(ex, ly, kind, ka):
    if kind == "Symbol":
        s = ex.force(ka.f[0])
        if known(ex, s) and not ex.ghost.get("nosub"): return valof(ex, s)
        return den.sym_term(ex, s)
    return den.kind_den(ex, ka)
def w_eval(a):
    case, full = a; C, p, cs, ly = _ST
    kind, ar, pt = case; f = p.fn(EV)
    sym.EXEC.clear()
    if f is None: return a, H.UNDECIDED, "evaluate not found", []
    def run(ex):
        ex.ghost["full"] = full
        IN, ka = rec.setup(ex, ly, kind, ar, poly=pt); ex.ghost["ka"] = ka
        if kind == "FunctionCall": ex.ghost["fname"] = ex.force(dict(zip(ly.kf[kind], ka.f))["name"])
        vars_ = Ptr(Cell(Opaque("assignment"))); cust = Ptr(Cell(Opaque("customs")))
        return ex.run(f, [Ptr(Cell(IN)), vars_, cust])
    rnd = random.Random(3)
    def judge(ex, v):
        ka = ex.ghost["ka"]
        if kind == "Derivative":
            g = dict(zip(ly.kf[kind], ka.f)); k = den.kind_of(ex, v)
            if k is None: return H.UNDECIDED, "opaque"
            if rec.kindname(ex, v) != "Derivative": return H.UNDECIDED, "result kind " + str(rec.kindname(ex, v))
            h = dict(zip(ly.kf[kind], k.f))
            if not ex.sym_eq(ex.force(h["var"]), ex.force(g["var"])): return H.REFUTED, "differentiation variable changed"
            if tm.prove_eq(ex.nf(ex.num_of(h["order"])), ex.nf(ex.num_of(g["order"]))) is not True: return H.REFUTED, "order changed"
            # the variable of differentiation is bound: the assignment used inside must leave it alone
            for k_, va in ex.ghost.get("calls", []):
                lk = ex.deref_all(va)
                if isinstance(lk, Opaque): return H.REFUTED, "the variable of differentiation is substituted inside the derivative"
                ns = [n for n, _ in ex.prog.types[lk.ty]["v"][0]["f"]]
                if not masks(ex, lk, ex.force(g["var"])): return H.UNDECIDED, "assignment inside the derivative not recognised"
        s, w = rec.den_judge(ex, rec.sigma(ex, ly, kind, ka, spec(ex, ly, kind, ka)), v, rnd)
        if s != H.PROVED: return s, w
        if full and kind not in ("Derivative",):
            if kind == "FunctionCall" or rec.kindname(ex, v) == "Number":
                if kind == "FunctionCall" and rec.kindname(ex, v) != "Number" and not declined(ex): return H.REFUTED, "not a number although every argument is and the function is defined"
                return H.PROVED, ""
            if kind == "Div":
                d = rec.sig(ex, ka.f[1])
                if ex.decide(ex.cmp("eq", d, ZERO)) is True: return H.PROVED, ""
            return H.REFUTED, f"not a number although everything is known ({rec.kindname(ex, v)})"
        return H.PROVED, ""
    st, why, n = rec.drive(C, p, cs, "", run, judge, opts={"opaque_call": opaque_call, "max_dec": 100})
    return a, st, why, list(sym.EXEC)
def declined(ex):
    return ex.ghost.get("declined") or not ex.ghost.get("some")
def masks(ex, lk, s):
    """does this lookup answer None for the symbol (its own get_value, executed) and pass others on"""
    p = ex.prog; ty = p.types[lk.ty]["n"]
    f = next((f for f in p.fns if f["def"].endswith("::get_value") and ty.rsplit("::", 1)[-1] in f["def"] and "body" in f), None)
    if f is None: return False
    r = ex.run(f, [Ptr(Cell(lk)), Ptr(Cell(s))])
    r = ex.need_adt(r)
    return len(r.f) == 0
# ------------------------------------------------------------------ substitute / map / deep_clone
def w_map(a):
    nm, case = a; C, p, cs, ly = _ST; kind, ar, pt = case
    sym.EXEC.clear()
    f = next((g for g in p.fns if g["def"] == ANA + nm and "body" in g), None)
    if f is None: return a, H.UNDECIDED, nm + " not found", []
    cs = dict(cs)
    def c_rec(ex, fn_, x):
        if nm == "substitute" and not ex.ghost.get("in_map"): ex.ghost["in_map"] = True; return NotImplemented    # the node itself: real body
        # contract: denotes the child with the variable replaced; is not the variable itself
        return notvar(ex, den.mkexpr(ex, rec.sig(ex, x[0]))) if nm == "substitute" else den.mkexpr(ex, rec.sig(ex, x[0]))
    cs[ANA + ("map" if nm == "substitute" else nm)] = c_rec
    if nm == "substitute":
        for n in ("div_expr", "pow_static", "poly"): cs.pop(den.CTOR + n, None)      # their results can be an operand: real bodies
    def run(ex):
        IN, ka = rec.setup(ex, ly, kind, ar, poly=pt); ex.ghost["ka"] = ka
        ex.ghost["identity"] = nm == "deep_clone"
        if nm == "substitute":
            x = SymV("dvar"); ex.ghost["x"] = x; rep = notvar(ex, den.mkexpr(ex, var("rep")))
            return ex.run(f, [Ptr(Cell(IN)), StrSym(x), Ptr(Cell(rep))])
        return ex.run(f, [Ptr(Cell(IN))])
    rnd = random.Random(3)
    def judge(ex, v):
        ka = ex.ghost["ka"]
        if kind == "Symbol" and nm == "substitute":
            s = ex.force(ka.f[0]); sp = var("rep") if ex.sym_eq(s, ex.ghost["x"]) else den.sym_term(ex, s)
        else: sp = rec.sigma(ex, ly, kind, ka, den.kind_den(ex, ka))
        if kind == "Derivative":
            k = den.kind_of(ex, v)
            if k is None: return H.UNDECIDED, "opaque"
        if nm == "substitute" and rec.kindname(ex, v) == "Symbol" and ex.sym_eq(ex.force(den.kind_of(ex, den.strip(ex, v)).f[0]), ex.ghost["x"]): return H.REFUTED, "the substituted symbol remains"
        return rec.den_judge(ex, sp, v, rnd)
    st, why, n = rec.drive(C, p, cs, "", run, judge, opts={})
    return a, st, why, list(sym.EXEC)
def notvar(ex, v):
    """an expression that is not the substituted symbol itself"""
    ly = den.lay(ex.prog); k = ex.refine_to(v, 0).f[ly.ef["kind"]]
    if ex.choose(2, "is a symbol") == 1: ex.excl.setdefault(k.id, set()).add(ly.kv["Symbol"]); return v
    ka = ex.refine_to(k, ly.kv["Symbol"])
    if ex.sym_eq(ex.force(ka.f[0]), ex.ghost["x"]): raise sym.Infeasible()
    return v
# ------------------------------------------------------------------ variable queries
def occ(ex, v):
    """does the child mention the variable: ghost booleans shared with the contracts"""
    return ex.ghost.get(("contains", rec.key(ex, v)))
def w_free(a):
    nm, case = a; C, p, cs, ly = _ST; kind, ar, pt = case
    sym.EXEC.clear()
    f = p.fn(ANA + nm)
    if f is None: return a, H.UNDECIDED, nm + " not found", []
    cs = dict(cs)
    if nm == "has_free_variables":
        def c_free(ex, fn_, x):
            lit = den.numlit(ex, x[0])
            if lit is not None: return False
            k = ("contains", rec.key(ex, x[0]))
            if k not in ex.ghost: ex.ghost[k] = ex.choose(2, "free") == 0
            return ex.ghost[k]
        cs[ANA + nm] = c_free
        for g in p.fns:
            if "HashSet" in g["def"] and g["def"].endswith("::contains"): cs[g["def"]] = c_excluded
    else:
        def c_coll(ex, fn_, x):
            ex.ghost.setdefault("visited", []).append(rec.key(ex, x[0])); return sym.UNIT
        cs[ANA + nm] = c_coll
        for g in p.fns:
            if "HashSet" in g["def"] and g["def"].endswith("::insert"): cs[g["def"]] = c_insert
    def run(ex):
        IN, ka = rec.setup(ex, ly, kind, ar, poly=pt); ex.ghost["ka"] = ka
        v = ex.run(f, [Ptr(Cell(IN)), Ptr(Cell(Opaque("set")))])
        return ex.branch(v) if nm == "has_free_variables" else v
    def judge(ex, v):
        ka = ex.ghost["ka"]; ch = rec.children(ex, ly, kind, ka); g = dict(zip(ly.kf[kind], ka.f))
        own = ex.force(ka.f[0]) if kind == "Symbol" else ex.force(g["var"]) if kind == "Derivative" else None
        if nm == "has_free_variables":
            o = own is not None and ex.ghost.get(("excluded", symkey(ex, own))) is False
            vals = [occ(ex, c) for c in ch]
            vals = [False if rec.kindname(ex, c) == "Number" else b for c, b in zip(ch, vals)]
            if v is True and not (o or any(b is True for b in vals)): return H.REFUTED, "true without a free variable"
            if v is False and (o or any(b is not False for b in vals) or (own is not None and ("excluded", symkey(ex, own)) not in ex.ghost)): return H.REFUTED, "false although a child has a free variable"
            return H.PROVED, ""
        vis = ex.ghost.get("visited", []); ins = ex.ghost.get("inserted", [])
        if sorted(set(vis)) != sorted({rec.key(ex, c) for c in ch}): return H.REFUTED, f"visits {len(set(vis))} of {len(ch)} children"
        want = {symkey(ex, own)} if own is not None else set()
        if set(ins) != want: return H.REFUTED, f"records {ins}, occurring here {want}"
        return H.PROVED, ""
    st, why, n = rec.drive(C, p, cs, "", run, judge)
    return a, st, why, list(sym.EXEC)
def symkey(ex, s):
    nm, root = ex.sym_name(s); return nm or root
def c_excluded(ex, f, a):
    x = models.S(ex, a[1]); k = ("excluded", x if isinstance(x, str) else symkey(ex, x.s))
    if k not in ex.ghost: ex.ghost[k] = ex.choose(2, "excluded") == 0
    return ex.ghost[k]
def c_insert(ex, f, a):
    if not (isinstance(ex.deref_all(a[0]), Opaque)): return NotImplemented
    x = models.S(ex, a[1]); ex.ghost.setdefault("inserted", []).append(x if isinstance(x, str) else symkey(ex, x.s)); return True
BND = lambda c: f"nodes with exactly {c[1]} operands" if c[0] in ("FunctionCall", "Sum", "Product") else (f"polynomials of {c[2]} terms" if c[0] == "Poly" else None)
def contractual(C):
    global _ST
    p = mir.prog(); cs = contracts(p); ly = den.lay(p); _ST = C, p, cs, ly
    out = []
    for full in (False, True):
        for a, st, why, fns in par.run(w_eval, [(c, full) for c in CASES], C):
            C.fns.update(fns); C.ob(f"evaluate/{label(a[0])}" + ("/everything known" if full else ""), st, why, bounded=BND(a[0]) if st == H.PROVED else None)
    for a, st, why, fns in par.run(w_map, [(n, c) for n in ("substitute", "deep_clone") for c in CASES], C):
        C.fns.update(fns); C.ob(f"{a[0]}/{label(a[1])}", st, why, bounded=BND(a[1]) if st == H.PROVED else None)
    for a, st, why, fns in par.run(w_free, [(n, c) for n in ("has_free_variables", "collect_variables") for c in CASES], C):
        C.fns.update(fns); C.ob(f"{a[0]}/{label(a[1])}", st, why, bounded=BND(a[1]) if st == H.PROVED else None)
    c01.contains(C, p, c01.contracts(p), ly)
# ------------------------------------------------------------------ bounded comparison on the real code
NM = ["x", "y", "z"]
def gen(r, deriv=True, ufs=("f", "g")):
    g = simpdiff.G2(r, r.choice(["alg", "trig"]), names=tuple(NM), special=r.random() < 0.3, ufs=ufs if r.random() < 0.4 else (), poly=True)
    g.deriv = deriv and r.random() < 0.5
    while True:
        t = g.tree(r.choice([1, 2, 2, 3, 3, 4]))
        if O.size(t) < 50: return t
def envof(r, names): return {n: mpf(r.choice([0.3, 0.7, 1.3, 2.2, 3.1, 1.0, 2.0, 0.5, 0.0]) * r.choice([1, 1, 1, -1]) * (1 if r.random() < 0.4 else 1 + r.randrange(-50, 50) / 997)) for n in names}
def close(t, x, y, e):
    """x: value of t at e (oracle), y: value of the result"""
    from .. import evalcheck as E
    if abs(x.v - y.v) <= E.illtol(t) * (1 + abs(x.v) + float(x.scale) * 1e-3): return True
    if x.scale > 1e12 or x.small < 1e-12: return True
    try: return simpdiff.illcond(t, e, abs(x.v - y.v)) or simpdiff.tiny_const(t) or not E.alldef(t, e)
    except Exception: return True
def evald(t, env, known, cmd, st):
    s = R.call("%s %d %s %s" % (cmd, len(known), " ".join(f"{R.esc(n)} {R.hx(float(env[n]))}" for n in known), R.enc(t)), 10)
    if s.startswith("ERR"): return None
    r = R.dec(s)
    left = O.names(r) & set(known) - {x[2] for x in O.nodes(r) if x[0] == "d"}
    if left: return ("remains", f"{cmd} with {known} known leaves {sorted(left)}: {R.show(r)}")
    x = O.ev(O.term(t), env)
    if x is None: return None
    full = set(known) >= O.names(t) and not any(u[0] == "d" or u[0] == "f" and u[1] not in O.KNOWN and O.ALIAS.get(u[1], u[1]) not in O.KNOWN for u in O.nodes(t))
    if full and r[0] != "n":
        from .. import evalcheck as E
        if E.alldef(t, env) and not simpdiff.tiny_const(t) and not any(u[0] == "f" and u[1] in E.LOOSE for u in O.nodes(t)): return ("notnumber", f"{cmd} with every variable known gives {R.show(r)}")
        return None
    if r[0] == "n" and (r[1] != r[1] or abs(r[1]) > 1e300): return None
    y = O.ev(O.term(r), env)
    if y is None: return None
    st["points"] += 1
    if not close(t, x, y, env): return ("value", f"{cmd} gives {R.show(r)[:300]} with value {mp(y.v)}, the expression has {mp(x.v)}")
    return None
def mp(v):
    import mpmath
    return mpmath.nstr(v, 15)
def case_eval(r, st):
    t = gen(r); env = envof(r, NM); known = list(NM) if r.random() < 0.4 else r.sample(NM, r.choice([0, 1, 2])); cmd = r.choice(["evaluate", "evaluate", "evalid"])
    def f(c):
        try: return evald(c, env, known, cmd, st)
        except R.RPanic as e: return ("panic", f"{cmd} panics: {e}")
    w = f(t)
    if not w: return None
    t = BND_.shrunk(t, lambda c: (f(c) or [0])[0] == w[0]); w = f(t) or w
    return f"{cmd}:{w[0]}:{R.show(t)[:150]}", f"{R.show(t)[:300]} at { {k: float(v) for k, v in env.items()} }: {w[1]}", {"kind": cmd, "input": R.enc(t), "env": {k: float(v) for k, v in env.items()}, "known": known}
BIG = [2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 2, 2 ** 32 - 1]
def case_power(r, st):
    """polynomials of any power a term can hold, at a base where such powers stay in range"""
    t = ("P", ("s", "x"), [(0, r.choice([1.0, -2.5])), (r.choice([1, 2, 7]), r.choice([2.0, -1.0])), (r.choice(BIG + [r.randrange(1 << 20, 1 << 32)]), r.choice([1.0, 3.0, -0.5]))])
    x = r.choice([1.0, -1.0, 0.0, 1.0 + r.randrange(-9, 10) * 2.0 ** -34, -1.0 + r.randrange(-9, 10) * 2.0 ** -34]); cmd = r.choice(["evaluate", "evalid"])
    s = R.call(f"{cmd} 1 x {R.hx(x)} {R.enc(t)}", 10)
    if s.startswith("ERR"): return None
    g = R.dec(s); y = sum(c * mpf(x) ** k if k else mpf(c) for k, c in t[2]); st["points"] += 1
    if g[0] == "n" and abs(g[1] - y) <= 1e-6 * (1 + abs(y)): return None
    return f"{cmd}:power:{R.show(t)[:150]}", f"{R.show(t)} at x = {x!r}: {cmd} gives {R.show(g)}, the value is {mp(y)}", {"kind": "power", "cmd": cmd, "input": R.enc(t), "x": x}
def captures(t, v, rep):
    return any(u[0] == "d" and (u[2] == v or u[2] in O.names(rep)) for u in O.nodes(t))
def subst(t, v, rep, env, st):
    s = R.call(f"subst {R.esc(v)} {R.enc(t)} {R.enc(rep)}", 10)
    if s.startswith("ERR"): return None
    r = R.dec(s)
    if v in O.names(r) and v not in O.names(rep): return ("remains", f"{v} remains in {R.show(r)[:300]}")
    b = O.ev(O.term(rep), env)
    if b is None: return None
    e2 = dict(env); e2[v] = b.v
    x, y = O.ev(O.term(t), e2), O.ev(O.term(r), env)
    if x is None or y is None: return None
    st["points"] += 1
    if not O.same(x, y) and not simpdiff.tiny_const(t) and not simpdiff.tiny_const(r) and x.scale < 1e12 and x.small > 1e-11 and b.small > 1e-11 and not simpdiff.illcond(t, e2, abs(x.v - y.v)): return ("value", f"gives {R.show(r)[:300]} with value {mp(y.v)}, the composition has {mp(x.v)}")
def case_subst(r, st):
    t = gen(r); rep = gen(r, deriv=False) if r.random() < 0.7 else r.choice([("n", 2.0), ("n", 0.0), ("s", "y"), ("s", "x")]); v = r.choice(NM); env = {k: e or mpf("0.41") for k, e in envof(r, NM).items()}
    if O.size(rep) > 25 or captures(t, v, rep): return None
    def f(c):
        try: return subst(c, v, rep, env, st) if not captures(c, v, rep) else None
        except R.RPanic as e: return ("panic", f"substitute panics: {e}")
    w = f(t)
    if not w: return None
    t = BND_.shrunk(t, lambda c: (f(c) or [0])[0] == w[0]); w = f(t) or w
    return f"subst:{w[0]}:{R.show(t)[:150]}", f"{v} := {R.show(rep)[:100]} in {R.show(t)[:300]}: {w[1]}", {"kind": "subst", "var": v, "by": R.enc(rep), "input": R.enc(t), "env": {k: float(e) for k, e in env.items()}}
def query(t, r):
    """queries against the occurrences in the tree as built"""
    d = R.dec(R.call("raw " + R.enc(t))); occ = {x[1] for x in O.nodes(d) if x[0] == "s"} | {x[2] for x in O.nodes(d) if x[0] == "d"}
    vs = set(R.unesc(x) for x in R.call("vars " + R.enc(t)).split())
    if vs - set(O.CONST) != occ - set(O.CONST): return ("vars", f"variables() gives {sorted(vs)}, occurring are {sorted(occ)}")
    for v in NM + ["w"]:
        c = R.call(f"contains {v} {R.enc(t)}").split()
        if c != [str(v in occ).lower()] * 2: return ("contains", f"contains_var({v}) gives {c}, occurring are {sorted(occ)}")
    ex = r.sample(NM + ["pi", "e", "w"], r.choice([0, 1, 2, 3]))
    h = R.call(f"hasfree {len(ex)} {' '.join(ex)} {R.enc(t)}".replace("  ", " "))
    want = str(bool(occ - set(ex))).lower()
    if h != want: return ("hasfree", f"has_free_variables(excluding {ex}) gives {h}, occurring are {sorted(occ)}")
    if cloned_differs(t, r): return ("clone", cloned_differs(t, r))
def cloned_differs(t, r):
    """a deep clone has the value of the original (it may fold literals)"""
    c = R.dec(R.call("clone " + R.enc(t)).split(" ", 2)[2]); d = R.dec(R.call("raw " + R.enc(t)))
    if c == d: return None
    env = envof(random.Random(7), NM)
    x, y = O.ev(O.term(d), env), O.ev(O.term(c), env)
    if x is None or y is None: return None
    if O.names(c) - O.names(d): return f"deep_clone gives {R.show(c)[:200]}"
    if not O.same(x, y) and not simpdiff.tiny_const(t) and x.scale < 1e12 and x.small > 1e-11 and not simpdiff.illcond(t, env, abs(x.v - y.v)): return f"deep_clone gives {R.show(c)[:200]} with value {mp(y.v)} instead of {mp(x.v)}"
def case_query(r, st):
    t = gen(r); s = r.randrange(1 << 30)
    def f(c):
        try: return query(c, random.Random(s))
        except R.RPanic as e: return ("panic", f"panic: {e}")
    w = f(t)
    if not w: return None
    t = BND_.shrunk(t, lambda c: (f(c) or [0])[0] == w[0]); w = f(t) or w
    return f"query:{w[0]}:{R.show(t)[:150]}", f"{R.show(t)[:300]}: {w[1]}", {"kind": "query", "input": R.enc(t)}
def bounded(C):
    b = "random expressions of depth <= 4 over three variables, at most 50 nodes; nested derivatives, unknown functions, polynomials"
    BND_.run(C, "evaluate", case_eval, 4000, 60000, b)
    BND_.run(C, "huge powers", case_power, 300, 5000, "three-term polynomials with powers up to 2^32-1, at bases 0, 1, -1 and within 2^-30 of them", seed=3)
    BND_.run(C, "substitute", case_subst, 3000, 40000, b + "; substitution under a derivative only where no variable is captured", seed=1)
    BND_.run(C, "queries", case_query, 2000, 20000, b, seed=2)
def main():
    C = H.Check("C17")
    C.trusted = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor and std models", "vf exponential-polynomial normaliser", "assumed contracts: Expr constructors (C03), table evaluation (C15), Polynomial accessors (C10)", "HashMap/HashSet lookups"]
    C.assume = ["f64 arithmetic treated as real arithmetic", "user-supplied evaluation functions compute the user's function"]
    contractual(C)
    bounded(C)
    rec.refuted(C)
    C.finish()
