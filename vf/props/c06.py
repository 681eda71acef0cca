"""C06: the simplifier only applies enabled rewrites, its caches stay coherent, its limits hold.
Contracts: a cache entry remembers what its rule answered for its expression (invariant of every cache operation); one node is
transformed by a chain of answers of enabled rules registered for it; the bottom-up pass rebuilds a node from simplified children
and never touches what lies beyond the depth limit; the outer loop applies the pass at most max_iterations times."""
import random, sys, time
import mpmath
from .. import term as tm, mir, sym, models, den, rec, rules, harness as H, replay as R, oracle as O, par, bnd as BND_, simpdiff
from ..term import num, mk, var, fn, ZERO, ONE
from ..sym import Ex, explore, Sym, SymV, IdV, Ptr, Cell, ArcV, VecV, Adt, Opaque, Tup, MapV, UNIT
EN = "symb_anafis::simplification::engine::"; HK = EN + "HashKeyedCache::"; SI = EN + "Simplifier::"
RU = "symb_anafis::simplification::rules::"; RG = RU + "RuleRegistry::"
EXEQ = "<symb_anafis::core::expr::Expr as std::cmp::PartialEq>::eq"
_ST = None
class Tok:
    """an arbitrary value known only by its identity"""
    __slots__ = ("n", "x")
    def __init__(self, n, x=None): self.n = n; self.x = x
    def __repr__(self): return self.n
def ty_of(p, nm):
    for i, t in enumerate(p.types):
        if t["k"] == "adt" and t["n"] == nm: return i
    raise KeyError(nm)
def fields(p, ty): return [f[0] for f in p.types[ty]["v"][0]["f"]]
def build(p, nm, **vals):
    ty = ty_of(p, nm); fl = fields(p, ty)
    if set(fl) != set(vals): raise sym.Unsupported(f"fields of {nm} are {fl}")
    return Adt(ty, 0, [vals[x] for x in fl])
def field(p, v, nm): return v.f[fields(p, v.ty).index(nm)]
def opt_of(ex, v):
    """None / the token inside an Option<Arc<_>>"""
    o = ex.need_adt(ex.deref_all(v)); return ex.deref_all(o.f[0]) if o.f else None
# ------------------------------------------------------------------ A. one cache
def st_cache(ex, p, n):
    """an arbitrary coherent cache seen from the expression X: the chain of X's hash has n entries, another hash has one"""
    X = Tok("X"); HX, HO = Tok("hash of X"), Tok("other hash"); ex.ghost["hash"] = {id(X): HX}
    keys = [Tok(f"K{i}") for i in range(n)]; hit = ex.choose(n + 1, "which entry is X")
    same = hit < n and ex.choose(2, "same allocation") == 0
    ex.ghost["equal"] = {id(keys[hit])} if hit < n else set()
    xa = ArcV(Cell(X)); res = []
    for i in range(n): res.append(Tok(f"R{i}") if ex.choose(2, f"entry {i} holds") == 0 else None)
    ent = lambda k, r: build(p, EN + "CacheEntry", key_expr=k, result=models.some(ex, ArcV(Cell(r))) if r is not None else models.none(ex))
    ka = [xa if same and i == hit else ArcV(Cell(k)) for i, k in enumerate(keys)]
    if same: keys[hit] = X
    KO, RO = Tok("other"), Tok("other result"); ex.ghost["hash"].update({id(k): HX for k in keys}); ex.ghost["hash"][id(KO)] = HO
    kv = [(HO, VecV([ent(ArcV(Cell(KO)), RO)]))] + ([(HX, VecV([ent(ka[i], res[i]) for i in range(n)]))] if n or ex.choose(2, "empty chain") == 0 else [])
    c = Cell(build(p, EN + "HashKeyedCache", entries=MapV(kv), len=n + 1))
    ex.ghost.update(X=X, xa=xa, hit=res[hit] if hit < n else "absent", key=keys[hit] if hit < n else None, old=[(HO, KO, RO)] + [(HX, k, r) for k, r in zip(keys, res)], cell=c, HX=HX)
    return c
def content(ex, p, c):
    out = []
    for h, ch in ex.force(field(p, ex.need_adt(c.v), "entries")).kv:
        for e in ex.need_vec(ex.deref_all(ch)).e:
            e = ex.need_adt(ex.force(e)); out.append((ex.deref_all(h), ex.deref_all(field(p, e, "key_expr")), opt_of(ex, field(p, e, "result"))))
    return out
def eq_tok(ex, x, y):
    if isinstance(x, Tok) or isinstance(y, Tok):
        if x is y: return True
        X = ex.ghost.get("X")
        return (x is X and id(y) in ex.ghost["equal"]) or (y is X and id(x) in ex.ghost["equal"])
    return None
def cache_contracts(p):
    cs = dict(den.base_contracts(p))
    def c_hash(ex, f, a):
        t = ex.deref_all(a[0]); h = ex.ghost.get("hash", {}).get(id(t))
        return h if h is not None else NotImplemented
    for f in p.fns:
        if f["def"].endswith("::structural_hash") or f["def"].endswith("Expr::hash"): cs[f["def"]] = c_hash
    cs[EXEQ] = lambda ex, f, a: bool(eq_tok(ex, ex.deref_all(a[0]), ex.deref_all(a[1])))
    return cs
def w_cache(a):
    nm, n = a; p, _ = _ST; sym.EXEC.clear(); f = p.fn(HK + nm); name = f"cache {nm}" + (f", chain of {n}" if nm in ("get", "insert") else "")
    if f is None: return name, H.UNDECIDED, "not found", None, []
    def run(ex):
        if nm == "new": return ex.run(f, [])
        c = st_cache(ex, p, n); me = Ptr(c)
        if nm == "get": return ex.run(f, [me, Ptr(Cell(ex.ghost["xa"]))])
        if nm == "insert":
            ex.ghost["R"] = Tok("R") if ex.choose(2, "inserted") == 0 else None
            r = ex.ghost["R"]; return ex.run(f, [me, ex.ghost["xa"], models.some(ex, ArcV(Cell(r))) if r is not None else models.none(ex)])
        return ex.run(f, [me])
    def judge(ex, v):
        if nm == "new":
            c = Cell(ex.force(v)); return (H.PROVED, "") if not content(ex, p, c) else (H.REFUTED, "a new cache remembers something")
        g = ex.ghost; now = content(ex, p, g["cell"])
        if nm == "get":
            o = ex.need_adt(ex.force(v))
            if now != g["old"]: return H.REFUTED, "a lookup changes the cache"
            if not o.f: return H.PROVED, ""
            r = opt_of(ex, o.f[0])
            if g["hit"] == "absent": return H.REFUTED, f"answers {r} for an expression that was never remembered"
            return (H.PROVED, "") if r is g["hit"] else (H.REFUTED, f"answers {r}, remembered was {g['hit']}")
        if nm == "clear": return (H.PROVED, "") if all(e in g["old"] for e in now) else (H.REFUTED, "entries changed")
        if nm == "len": return (H.PROVED, "") if now == g["old"] else (H.REFUTED, "the cache changes")
        for e in now:
            mine = e[1] is g["X"] or e[1] is g["key"]
            if mine and e[2] is g["R"]:
                if e[0] is not g["HX"]: return H.REFUTED, "stored under another hash"
            elif mine: return H.REFUTED, f"the stale result {e[2]} of the same expression stays"
            elif e not in g["old"]: return H.REFUTED, f"entry {e[1]} -> {e[2]} was never inserted"
        return H.PROVED, ""
    st, why, _ = rec.drive(None, p, cache_contracts(p), name, run, judge, opts={"eq": eq_tok, "nopanic": lambda pe, e: True})
    return name, st, why, f"collision chain of {n} entries" if n and st == H.PROVED else None, list(sym.EXEC)
# ------------------------------------------------------------------ B. rules on one node
class Rule(Tok):
    __slots__ = ()
def node_contracts(p):
    cs = dict(den.base_contracts(p))
    cs[EN + "trace_enabled"] = lambda ex, f, a: False
    cs[EN + "global_registry"] = lambda ex, f, a: Ptr(Cell(Opaque("registry")))
    def listed(ex, what):
        g = ex.ghost.setdefault("listed", {})
        if what not in g:
            g[what] = [Rule(f"{what}{i}", bool(ex.choose(2, "keeps domain"))) for i in range(ex.ghost["count"])]
        return Ptr(Cell(VecV([ArcV(Cell(r)) for r in g[what]])))
    def c_kind(ex, f, a):
        k = ex.force(a[1]); n = ex.prog.types[k.ty]["v"][k.var]["n"]
        return listed(ex, "kind " + n + " ")
    cs[RG + "get_rules_for_kind"] = c_kind
    def c_spec(ex, f, a):
        i = ex.force(a[1]); s = i.s if isinstance(i, IdV) else i
        return listed(ex, "specific " if ex.sym_eq(s, ex.ghost["fname"]) else "specific to another function ")
    cs[RG + "get_specific_func_rules"] = c_spec
    cs[RG + "get_generic_func_rules"] = lambda ex, f, a: listed(ex, "generic ")
    rt = "symb_anafis::simplification::rules::Rule::"
    rule = lambda ex, a: ex.deref_all(a[0])
    cs[rt + "name"] = lambda ex, f, a: Tok("name of " + rule(ex, a).n, rule(ex, a)) if not ex.ghost.setdefault("names", {}).get(rule(ex, a).n) else ex.ghost["names"][rule(ex, a).n]
    def c_name(ex, f, a):
        r = rule(ex, a); m = ex.ghost.setdefault("names", {})
        if r.n not in m: m[r.n] = Tok("name of " + r.n, r)
        return m[r.n]
    cs[rt + "name"] = c_name
    cs[rt + "alters_domain"] = lambda ex, f, a: rule(ex, a).x
    def c_applies(ex, f, a): raise sym.Unsupported("applies_to of an arbitrary rule")
    cs[rt + "applies_to"] = c_applies
    def answer(ex, r, e):
        m = ex.ghost.setdefault("answers", {}); k = (r.n, id(e))
        if k not in m: m[k] = Expr_("(" + r.n.strip() + " applied to " + ename(ex, e) + ")", (r, e)) if ex.choose(2, f"{r.n} answers") == 0 else None; ex.ghost.setdefault("keep", []).append(e)
        return m[k]
    def c_apply(ex, f, a):
        r = rule(ex, a); e = ex.deref_all(a[1]); ctx = ex.need_adt(ex.deref_all(a[2]))
        if field(ex.prog, ctx, "domain_safe") is not ex.ghost["ds"]: ex.ghost["bad"] = f"{r.n} is given the other domain mode"
        t = answer(ex, r, e); return models.none(ex) if t is None else models.some(ex, arc(ex, t))
    cs[rt + "apply"] = c_apply
    def owner(ex, c):
        c = ex.deref_all(c)
        for k, v in ex.force(field(ex.prog, ex.need_adt(ex.ghost["me"].v), "rule_caches")).kv:
            if ex.deref_all(v) is c: return ex.deref_all(k).x
        raise sym.Unsupported("cache outside the table")
    cs[HK + "new"] = lambda ex, f, a: Tok("cache")
    def c_get(ex, f, a):
        if ex.choose(2, "cached") == 1: return models.none(ex)
        t = answer(ex, owner(ex, a[0]), ex.deref_all(a[1]))
        return models.some(ex, Ptr(Cell(models.none(ex) if t is None else models.some(ex, arc(ex, t)))))
    cs[HK + "get"] = c_get
    def c_insert(ex, f, a):
        r = owner(ex, a[0]); e = ex.deref_all(a[1]); m = ex.ghost.get("answers", {}); k = (r.n, id(e)); v = opt_of(ex, a[2])
        if k not in m or m[k] is not v: ex.ghost["bad"] = f"the cache of {r.n} is told {v} for {ename(ex, e)}, the rule answered {m.get(k, 'nothing yet')}"
        return UNIT
    cs[HK + "insert"] = c_insert
    cs[HK + "len"] = lambda ex, f, a: var("len:" + owner(ex, a[0]).n)
    cs[HK + "clear"] = lambda ex, f, a: UNIT
    return cs
class Expr_(Tok):
    __slots__ = ()
def ename(ex, e): return e.n if isinstance(e, Tok) else "the node"
def arc(ex, t):
    m = ex.ghost.setdefault("arcs", {})
    if id(t) not in m: m[id(t)] = ArcV(Cell(t))
    return m[id(t)]
def w_node(a):
    kind, count, ds = a; p, _ = _ST; ly = den.lay(p); sym.EXEC.clear(); f = p.fn(SI + "apply_rules_to_node"); name = f"rules on a {kind} node, {count} rules per list, {'domain-safe' if ds else 'any'} mode"
    if f is None: return name, H.UNDECIDED, "not found", None, []
    def run(ex):
        ex.ghost["count"] = count; ex.ghost["ds"] = ds
        IN, ka = rec.setup(ex, ly, kind, 1 if kind == "FunctionCall" else 2 if kind in ("Sum", "Product") else None, poly=1 if kind == "Poly" else None)
        if kind == "FunctionCall": ex.ghost["fname"] = ex.force(dict(zip(ly.kf[kind], ka.f))["name"])
        ctx = build(p, RU + "RuleContext", depth=var("d0"), domain_safe=ds, custom_bodies=Opaque("bodies"))
        me = Cell(build(p, EN + "Simplifier", rule_caches=MapV(), cache_capacity=var("capacity"), max_iterations=var("mi"), max_depth=var("md"), context=ctx, domain_safe=ds)); ex.ghost["me"] = me
        ex.ints.update({var("d0"), var("d"), var("capacity"), var("mi"), var("md")})
        e = ArcV(Cell(IN)); ex.ghost["e0"] = ex.deref_all(e)
        return ex.run(f, [Ptr(me), e, var("d")])
    def judge(ex, v):
        if ex.ghost.get("bad"): return H.REFUTED, ex.ghost["bad"]
        t = ex.deref_all(v); me = ex.need_adt(ex.ghost["me"].v)
        if field(p, ex.need_adt(field(p, me, "context")), "domain_safe") is not ds or field(p, me, "domain_safe") is not ds: return H.REFUTED, "the domain mode changes"
        want = {"FunctionCall": ("specific ", "generic ")}.get(kind, ("kind " + {"FunctionCall": "Function"}.get(kind, kind) + " ",))
        while isinstance(t, Expr_):
            r, t2 = t.x
            if ds and r.x: return H.REFUTED, f"{r.n} alters the domain and is applied in domain-safe mode"
            if not r.n.startswith(want): return H.REFUTED, f"{r.n} is applied to a {kind} node"
            t = t2
        if isinstance(t, Tok): return H.UNDECIDED, f"result {t}"
        if den.keyof(ex, den.strip(ex, t)) != den.keyof(ex, den.strip(ex, ex.ghost["in"])):
            if den.expr_eq(ex, t, ex.ghost["in"]) is not True: return H.REFUTED, "the result is another expression"
        return H.PROVED, ""
    st, why, _ = rec.drive(None, p, node_contracts(p), name, run, judge, max_paths=30000, budget=120, opts={"max_dec": 60, "eq": lambda ex, x, y: (x is y) if isinstance(x, Tok) or isinstance(y, Tok) else None})
    return name, st, why, f"{count} rules per list" if st == H.PROVED else None, list(sym.EXEC)
# ------------------------------------------------------------------ C. the bottom-up pass
def up_contracts(p):
    cs = dict(den.base_contracts(p))
    def c_rec(ex, f, a):
        d = tm.add(var("d"), ONE)
        if tm.prove_eq(ex.nf(sym_num(a[2])), ex.nf(d)) is not True: ex.ghost["bad"] = f"a child is visited at depth {tm.show(sym_num(a[2]))}"
        k = rec.key(ex, a[1]); m = ex.ghost.setdefault("kept", {})
        if k not in m: m[k] = ex.choose(2, "child kept") == 0
        if m[k]: return a[1]
        return ArcV(Cell(den.mkexpr(ex, var("sigma:" + str(k)))))
    cs[SI + "apply_rules_bottom_up"] = c_rec
    cs[SI + "apply_rules_to_node"] = lambda ex, f, a: ArcV(Cell(den.mkexpr(ex, fn("rules", den.ph(ex, a[1])))))
    cs[den.CTOR + "func_multi_from_arcs"] = lambda ex, f, a: den.mkexpr(ex, den.fn_term(ex, den.symval(ex, a[0]), [den.ph(ex, x) for x in den.items(ex, a[1])]))
    return cs
def sym_num(x): return num(x) if isinstance(x, int) else x
CASES = [("Number", 0, None), ("Symbol", 0, None), ("Div", 0, None), ("Pow", 0, None), ("Derivative", 0, None)] + [("FunctionCall", k, None) for k in (1, 2, 3)] + [(s, k, None) for s in ("Sum", "Product") for k in (2, 3)] + [("Poly", 0, 2)]
def w_up(a):
    kind, ar, pt = a; p, _ = _ST; ly = den.lay(p); sym.EXEC.clear(); f = p.fn(SI + "apply_rules_bottom_up"); name = f"bottom-up pass on a {kind} node" + (f" of {ar}" if kind in ("FunctionCall", "Sum", "Product") else "")
    if f is None: return name, H.UNDECIDED, "not found", None, []
    def run(ex):
        IN, ka = rec.setup(ex, ly, kind, ar, poly=pt); ex.ghost["ka"] = ka
        ex.ints.update({var("d"), var("md")}); ex.nn.update({var("d"), var("md")})
        ctx = build(p, RU + "RuleContext", depth=var("d0"), domain_safe=True, custom_bodies=Opaque("bodies"))
        me = Cell(build(p, EN + "Simplifier", rule_caches=MapV(), cache_capacity=var("capacity"), max_iterations=var("mi"), max_depth=var("md"), context=ctx, domain_safe=True)); ex.ghost["me"] = me
        return ex.run(f, [Ptr(me), ArcV(Cell(IN)), var("d")])
    rnd = random.Random(2)
    def judge(ex, v):
        ka = ex.ghost["ka"]; IN = ex.ghost["in"]; whole = den.ph(ex, IN)
        beyond = ex.decide(ex.cmp("lt", var("md"), var("d")))
        if beyond is not False:
            s, w = rec.den_judge(ex, whole, v, rnd)
            if s == H.PROVED and (beyond is True): return s, w
            if beyond is True: return (H.REFUTED if s != H.UNDECIDED else s), "a node beyond the depth limit is not returned untouched: " + w
            return H.UNDECIDED, "depth comparison undecided"
        if ex.ghost.get("bad"): return H.REFUTED, ex.ghost["bad"]
        kept = ex.ghost.get("kept", {}); ch = [] if kind in ("Poly", "Derivative") else rec.children(ex, ly, kind, ka)
        t = den.kind_den(ex, ka)
        t = tm.subst(t, {den.ph(ex, c): den.ph(ex, c) if kept.get(rec.key(ex, c), True) else var("sigma:" + str(rec.key(ex, c))) for c in ch})
        got = den.expand(ex, den.ph(ex, v))
        if got.op == "fn" and got.a[0] == "rules":
            s, w, _ = H.judge(ex, den.expand(ex, t), got.a[1], rnd)
            return s, w and f"{w}: the rules run on {tm.show(got.a[1])[:150]}, the rebuilt node is {tm.show(t)[:150]}"
        if den.expand(ex, whole) is got: return H.PROVED, ""
        return H.REFUTED, f"the result {tm.show(got)[:150]} is no answer of the rules for the node"
    st, why, _ = rec.drive(None, p, up_contracts(p), name, run, judge, max_paths=4000, budget=60, opts={"max_dec": 80})
    return name, st, why, (f"{ar} children" if kind in ("FunctionCall", "Sum", "Product") else None) if st == H.PROVED else None, list(sym.EXEC)
# ------------------------------------------------------------------ D. the outer loop
class BackEdge(Exception): pass
def loop_contracts(p):
    cs = dict(den.base_contracts(p))
    cs[EN + "trace_enabled"] = lambda ex, f, a: False
    def c_up(ex, f, a):
        g = ex.ghost; me = ex.need_adt(ex.deref_all(a[0]))
        if field(p, ex.need_adt(field(p, me, "context")), "domain_safe") is not g["ds"]: g["bad"] = "the pass runs in the other domain mode"
        if sym_num(a[2]) is not ZERO: g["bad"] = f"the pass starts at depth {tm.show(sym_num(a[2]))}"
        e = ex.deref_all(a[1]); n = Tok(f"pass({e.n})", e); g["passes"] = g.get("passes", 0) + 1
        return ArcV(Cell(n))
    cs[SI + "apply_rules_bottom_up"] = c_up
    def eq(ex, f, a):
        x, y = ex.deref_all(a[0]), ex.deref_all(a[1])
        if x is y: return True
        return ex.choose(2, "equal") == 0
    cs[EXEQ] = eq
    def c_contains(ex, f, a): return ex.choose(2, "seen") == 0
    for g in p.fns:
        d = g["def"]
        if d.startswith("std::collections::HashSet::<") and d.endswith("::contains"): cs[d] = c_contains
        if d.startswith("std::collections::HashSet::<") and d.endswith("::insert"): cs[d] = lambda ex, f, a: ex.choose(2, "new") == 0
        if d == "<symb_anafis::core::expr::Expr as std::clone::Clone>::clone": cs[d] = lambda ex, f, a: ex.deref_all(a[0])
    return cs
def w_loop(a):
    mi, ds = a; p, _ = _ST; sym.EXEC.clear(); f = p.fn(SI + "simplify"); name = f"simplify with at most {mi} iterations, {'domain-safe' if ds else 'any'} mode"
    if f is None: return name, H.UNDECIDED, "not found", None, []
    def run(ex):
        ex.ghost["ds"] = ds
        ctx = build(p, RU + "RuleContext", depth=3, domain_safe=not ds, custom_bodies=Opaque("bodies"))
        me = Cell(build(p, EN + "Simplifier", rule_caches=MapV(), cache_capacity=10, max_iterations=mi, max_depth=50, context=ctx, domain_safe=ds))
        return ex.run(f, [Ptr(me), Tok("input")])
    def judge(ex, v):
        g = ex.ghost
        if g.get("bad"): return H.REFUTED, g["bad"]
        if g.get("passes", 0) > mi: return H.REFUTED, f"{g['passes']} passes"
        t = ex.deref_all(v)
        if not isinstance(t, Tok): return H.UNDECIDED, "result"
        while t.x is not None: t = t.x
        return (H.PROVED, "") if t.n == "input" else (H.REFUTED, "not reached from the input")
    st, why, _ = rec.drive(None, p, loop_contracts(p), name, run, judge, opts={"max_dec": 80, "fork_unwrap": True, "max_loop": 40})
    return name, st, why, f"max_iterations = {mi}" if st == H.PROVED else None, list(sym.EXEC)
def w_step(ds):
    """one turn of the loop from an arbitrary state: the counter goes up by one, under the limit; what is kept is the pass of what was kept"""
    p, _ = _ST; sym.EXEC.clear(); f = p.fn(SI + "simplify"); name = f"simplify, any number of iterations, {'domain-safe' if ds else 'any'} mode"
    if f is None: return name, H.UNDECIDED, "not found", None, []
    b = f["body"]; vs = {n: l for n, l in b["vars"]}
    heads = back_edges(b)
    if "current" not in vs or "iterations" not in vs or len(heads) != 1: return name, H.UNDECIDED, f"loop shape not recognised (heads {heads})", None, []
    h = next(iter(heads))
    def hook(ex, fr, bb):
        if fr["body"] is not b or bb != h: return
        L = fr["L"]
        if not ex.ghost.get("in_loop"):
            ex.ghost["in_loop"] = True
            if sym_num(L[vs["iterations"]].v) is not ZERO: ex.ghost["bad"] = "the counter does not start at 0"
            c0 = ex.deref_all(L[vs["current"]].v)
            if not (isinstance(c0, Tok) and c0.n == "input"): ex.ghost["bad"] = "the loop does not start from the input"
            L[vs["iterations"]].v = var("it"); ex.ints.add(var("it")); ex.nn.add(var("it"))
            L[vs["current"]].v = ArcV(Cell(Tok("state")))
            ex.ghost["dsctx"] = True
            return
        ex.ghost["again"] = (L[vs["iterations"]].v, ex.deref_all(L[vs["current"]].v)); raise BackEdge()
    def run(ex):
        ex.ghost["ds"] = ds
        ctx = build(p, RU + "RuleContext", depth=3, domain_safe=not ds, custom_bodies=Opaque("bodies"))
        ex.ints.add(var("mi")); ex.nn.add(var("mi"))
        me = Cell(build(p, EN + "Simplifier", rule_caches=MapV(), cache_capacity=10, max_iterations=var("mi"), max_depth=50, context=ctx, domain_safe=ds))
        try: return ex.run(f, [Ptr(me), Tok("input")])
        except BackEdge: return "again"
    def judge(ex, v):
        g = ex.ghost
        if g.get("bad"): return H.REFUTED, g["bad"]
        if not g.get("in_loop"): return H.PROVED, ""
        if v == "again":
            it, c = g["again"]
            if tm.prove_eq(ex.nf(sym_num(it)), ex.nf(tm.add(var("it"), ONE))) is not True: return H.UNDECIDED, f"the counter becomes {it}"
            if ex.decide(ex.cmp("lt", var("it"), var("mi"))) is not True: return H.UNDECIDED, "the loop goes on without the counter being under the limit"
            if g.get("passes", 0) != 1: return H.UNDECIDED, f"{g.get('passes', 0)} passes in one turn"
        else: c = ex.deref_all(v)
        while c.x is not None: c = c.x
        return (H.PROVED, "") if c.n == "state" and g.get("passes", 0) <= 1 else (H.UNDECIDED, f"result {c}")
    st, why, _ = rec.drive(None, p, loop_contracts(p), name, run, judge, opts={"max_dec": 80, "fork_unwrap": True, "max_loop": 40, "at_block": hook})
    return name, st, why, None, list(sym.EXEC)
def back_edges(b):
    """targets of back edges of a depth-first walk"""
    succ = {}
    for i, (_, t, _l) in enumerate(b["blocks"]):
        k = t[0]; s = []
        if k == "goto": s = [t[1]]
        elif k == "switch": s = [x[1] for x in t[3]] + [t[4]]
        elif k == "call": s = [t[4]]
        elif k == "drop": s = [t[2]]
        elif k == "assert": s = [t[4]]
        succ[i] = [x for x in s if isinstance(x, int)]
    heads = set(); state = {}; stack = [(0, iter(succ[0]))]; state[0] = 1
    while stack:
        n, it = stack[-1]; nx = next(it, None)
        if nx is None: state[n] = 2; stack.pop(); continue
        if state.get(nx) == 1: heads.add(nx)
        elif nx not in state: state[nx] = 1; stack.append((nx, iter(succ[nx])))
    return heads
# ------------------------------------------------------------------ E. settings, simplify_expr
def w_set(nm):
    p, _ = _ST; sym.EXEC.clear(); f = p.fn(SI + nm); name = "setting " + nm
    if f is None: return name, H.UNDECIDED, "not found", None, []
    fl = {"with_max_iterations": "max_iterations", "with_max_depth": "max_depth", "with_domain_safe": "domain_safe"}
    base = lambda: dict(rule_caches=Tok("caches"), cache_capacity=Tok("capacity"), max_iterations=Tok("iterations"), max_depth=Tok("depth"), context=build(p, RU + "RuleContext", depth=Tok("cd"), domain_safe=Tok("cds"), custom_bodies=Tok("bodies")), domain_safe=Tok("ds"))
    def run(ex):
        if nm == "new": return ex.run(f, [])
        B = ex.ghost["B"] = base(); ex.ghost["V"] = Tok("new value"); return ex.run(f, [build(p, EN + "Simplifier", **B), ex.ghost["V"]])
    def judge(ex, v):
        v = ex.need_adt(v)
        if nm == "new":
            if ex.force(field(p, v, "rule_caches")).kv: return H.REFUTED, "a new simplifier remembers results"
            return (H.PROVED, "") if field(p, v, "domain_safe") is False and sym_num(field(p, v, "max_iterations")) == num(1000) and sym_num(field(p, v, "max_depth")) == num(50) else (H.REFUTED, "defaults differ from the documented 1000 iterations, depth 50")
        B, V = ex.ghost["B"], ex.ghost["V"]
        for k in B:
            got = field(p, v, k); w = V if fl.get(nm) == k else B[k]
            if nm == "with_custom_bodies" and k == "context":
                g = ex.need_adt(got)
                if ex.deref_all(field(p, g, "custom_bodies")) is not V: return H.REFUTED, "the bodies are not stored"
                continue
            if got is not w and ex.force(got) is not w: return H.REFUTED, f"{k} becomes {got}"
        return H.PROVED, ""
    st, why, _ = rec.drive(None, p, dict(den.base_contracts(p)), name, run, judge)
    return name, st, why, None, list(sym.EXEC)
def w_expr(a):
    p, _ = _ST; sym.EXEC.clear(); f = p.fn("symb_anafis::simplification::simplify_expr"); name = "simplify_expr, options " + " ".join(map(str, a))
    if f is None: return name, H.UNDECIDED, "not found", None, []
    hasd, hasi, ds = a; cs = dict(den.base_contracts(p))
    cs[EN + "global_registry"] = lambda ex, f, a: Ptr(Cell(Opaque("registry")))
    def c_simp(ex, f, a):
        me = ex.need_adt(ex.deref_all(a[0])); g = {k: field(p, me, k) for k in ("max_iterations", "max_depth", "domain_safe")}; g["bodies"] = ex.deref_all(field(p, ex.need_adt(field(p, me, "context")), "custom_bodies")); ex.ghost.setdefault("runs", []).append(g)
        return den.mkexpr(ex, fn("simplify", den.ph(ex, a[1])))
    cs[SI + "simplify"] = c_simp
    cs["symb_anafis::simplification::helpers::prettify_roots"] = lambda ex, f, a: den.mkexpr(ex, fn("pretty", den.ph(ex, a[0])))
    def run(ex):
        ly = den.lay(p); opt = lambda has, t: models.some(ex, t) if has else models.none(ex)
        ex.ghost["IN"] = Sym("IN", ly.EX); return ex.run(f, [ex.ghost["IN"], MapV(), MapV([(Tok("f"), Tok("body"))]), opt(hasd, Tok("D")), opt(hasi, Tok("I")), models.none(ex), ds])
    def judge(ex, v):
        rs = ex.ghost.get("runs", [])
        if len(rs) != 1: return H.UNDECIDED, f"{len(rs)} runs"
        g = rs[0]
        if g["domain_safe"] is not ds: return H.REFUTED, "the domain mode is not passed on"
        for k, has, n, dflt in (("max_depth", hasd, "D", 50), ("max_iterations", hasi, "I", 1000)):
            x = g[k]
            if has and not (isinstance(x, Tok) and x.n == n): return H.REFUTED, f"{k} is {x}, the option says {n}"
            if not has and sym_num(x) != num(dflt): return H.REFUTED, f"{k} is {x} by default"
        if not isinstance(g["bodies"], MapV) or [k.n for k, _ in g["bodies"].kv] != ["f"]: return H.REFUTED, "the bodies are not passed on"
        t = den.expand(ex, den.ph(ex, v)); w = fn("simplify", den.ph(ex, ex.ghost["IN"]))
        return (H.PROVED, "") if t is w or t is fn("pretty", w) else (H.UNDECIDED, f"result {tm.show(t)}")
    st, why, _ = rec.drive(None, p, cs, name, run, judge)
    return name, st, why, None, list(sym.EXEC)
# ------------------------------------------------------------------ F. the registry
KS = ["Number", "Symbol", "Sum", "Product", "Div", "Pow", "Function", "Derivative", "Poly"]
def w_index(a):
    p, _ = _ST; sym.EXEC.clear(); n = a; f = p.fn(RG + "build_kind_index"); name = f"rule index of {n} rules"
    if f is None: return name, H.UNDECIDED, "not found", None, []
    kt = ty_of(p, RU + "ExprKind"); kv = {v["n"]: i for i, v in enumerate(p.types[kt]["v"])}
    cs = dict(den.base_contracts(p)); rt = RU + "Rule::"
    def data(ex, r):
        g = ex.ghost.setdefault("decl", {})
        if r.n not in g:
            ks = [("Sum",), ("Function",), ("Pow", "Function"), ()][ex.choose(4, r.n + " kinds")]; ts = [(), ("f",), ("f", "g")][ex.choose(3, r.n + " targets")] if "Function" in ks else ()
            g[r.n] = (ks, ts)
        return g[r.n]
    cs[rt + "applies_to"] = lambda ex, f, a: Ptr(Cell(VecV([Adt(kt, kv[k], ()) for k in data(ex, ex.deref_all(a[0]))[0]])))
    cs[rt + "target_functions"] = lambda ex, f, a: VecV([ex.ghost["ids"][t] for t in data(ex, ex.deref_all(a[0]))[1]])
    def eq(ex, x, y):
        if isinstance(x, Tok) or isinstance(y, Tok): return x is y
        return None
    def run(ex):
        rs = ex.ghost["rules"] = [Rule(f"r{i}") for i in range(n)]; ex.ghost["ids"] = {"f": Tok("f"), "g": Tok("g")}
        me = ex.ghost["me"] = Cell(build(p, RU + "RuleRegistry", rules=VecV([ArcV(Cell(r)) for r in rs]), rules_by_kind=MapV(), rules_by_func=MapV(), generic_func_rules=VecV([])))
        ex.run(f, [Ptr(me)]); return UNIT
    def judge(ex, v):
        me = ex.need_adt(ex.ghost["me"].v); d = lambda r: data(ex, r); lst = lambda v: [ex.deref_all(x) for x in ex.need_vec(ex.deref_all(v)).e]
        for k, v in ex.force(field(p, me, "rules_by_kind")).kv:
            k = ex.need_adt(ex.deref_all(k)); kn = p.types[k.ty]["v"][k.var]["n"]
            for r in lst(v):
                if kn not in d(r)[0]: return H.REFUTED, f"{r} is listed under {kn}, it declares {d(r)[0]}"
        for k, v in ex.force(field(p, me, "rules_by_func")).kv:
            for r in lst(v):
                if ex.deref_all(k).n not in d(r)[1]: return H.REFUTED, f"{r} is listed for the function {ex.deref_all(k)}, it targets {d(r)[1]}"
        for r in lst(field(p, me, "generic_func_rules")):
            if "Function" not in d(r)[0] or d(r)[1]: return H.REFUTED, f"{r} is listed as generic, it declares {d(r)}"
        return H.PROVED, ""
    st, why, _ = rec.drive(None, p, cs, name, run, judge, max_paths=4000, opts={"eq": eq, "max_dec": 60})
    return name, st, why, f"{n} rules" if st == H.PROVED else None, list(sym.EXEC)
def w_get(nm):
    p, _ = _ST; sym.EXEC.clear(); f = p.fn(RG + nm); name = "registry " + nm
    if f is None: return name, H.UNDECIDED, "not found", None, []
    kt = ty_of(p, RU + "ExprKind"); kv = {v["n"]: i for i, v in enumerate(p.types[kt]["v"])}
    def run(ex):
        L = lambda n: VecV([ArcV(Cell(Rule(n + str(i)))) for i in range(2)])
        ex.ghost["f"], ex.ghost["g"], ex.ghost["h"] = Tok("f"), Tok("g"), Tok("h")
        me = Cell(build(p, RU + "RuleRegistry", rules=L("all"), rules_by_kind=MapV([(Adt(kt, kv[k], ()), L(k)) for k in KS]), rules_by_func=MapV([(ex.ghost["f"], L("f")), (ex.ghost["g"], L("g"))]), generic_func_rules=L("generic")))
        if nm == "get_rules_for_kind":
            k = KS[ex.choose(len(KS), "kind")]; ex.ghost["want"] = k; return ex.run(f, [Ptr(me), Adt(kt, kv[k], ())])
        if nm == "get_specific_func_rules":
            k = "fgh"[ex.choose(3, "function")]; ex.ghost["want"] = k; return ex.run(f, [Ptr(me), ex.ghost[k]])
        ex.ghost["want"] = "generic"; return ex.run(f, [Ptr(me)])
    def judge(ex, v):
        l = [ex.deref_all(x).n for x in ex.need_vec(ex.deref_all(v)).e]; w = ex.ghost["want"]
        if any(x[:-1] != w for x in l): return H.REFUTED, f"answers {l} for {w}"
        return H.PROVED, ""
    st, why, _ = rec.drive(None, p, dict(den.base_contracts(p)), name, run, judge, opts={"eq": lambda ex, x, y: (x is y) if isinstance(x, Tok) or isinstance(y, Tok) else None})
    return name, st, why, None, list(sym.EXEC)
def w_of(a):
    p, _ = _ST; ly = den.lay(p); sym.EXEC.clear(); kind = a; f = p.fn(RU + "ExprKind::of"); name = f"kind of a {kind} node"
    if f is None: return name, H.UNDECIDED, "not found", None, []
    def run(ex):
        IN, ka = rec.setup(ex, ly, kind, 1 if kind == "FunctionCall" else 2); return ex.run(f, [Ptr(Cell(IN))])
    def judge(ex, v):
        k = ex.need_adt(v); n = p.types[k.ty]["v"][k.var]["n"]; w = {"FunctionCall": "Function"}.get(kind, kind)
        return (H.PROVED, "") if n == w else (H.REFUTED, f"answers {n}")
    st, why, _ = rec.drive(None, p, {k: h for k, h in den.base_contracts(p).items() if k != RU + "ExprKind::of"}, name, run, judge)
    return name, st, why, None, list(sym.EXEC)
def w_names(a):
    """the caches are keyed by rule name: names are pairwise different"""
    p, cs = _ST; fs = rules.rule_fns(p); seen = {}; miss = []
    for n, (m, f) in sorted(fs.items()):
        try:
            x = rules.const_call(p, f["name"][:-len("apply")] + "name", cs); nm = x[1]
            if not isinstance(nm, str): miss.append(n); continue
            if nm in seen: return "rule names are pairwise different", H.REFUTED, f"{seen[nm]} and {n} share the name {nm!r}", None, []
            seen[nm] = n
        except (sym.Unsupported, sym.Panic, sym.Infeasible, TypeError): miss.append(n)
    return "rule names are pairwise different", H.UNDECIDED if miss else H.PROVED, (f"names of {miss[:5]} not read" if miss else f"{len(seen)} rules"), None, []
W = {}
def w_run(t): return W[t[0]](t[1])
def contractual(C):
    W.update(cache=w_cache, node=w_node, up=w_up, loop=w_loop, step=w_step, set=w_set, expr=w_expr, index=w_index, get=w_get, of=w_of, names=w_names)
    T = [("node", (k, n, ds)) for k in rec.KINDS for n in ((1, 2, 3) if k in ("Sum", "FunctionCall") and C.thorough else (1, 2) if k in ("Sum", "FunctionCall") else (1,)) for ds in (True, False)]
    T += [("cache", ("new", 0)), ("cache", ("clear", 2)), ("cache", ("len", 2))] + [("cache", (m, n)) for m in ("get", "insert") for n in range(0, 5 if C.thorough else 4)]
    T += [("up", c) for c in CASES] + [("loop", (n, ds)) for n in range(0, 6 if C.thorough else 4) for ds in (True, False)] + [("step", True), ("step", False)]
    T += [("set", n) for n in ("new", "with_max_iterations", "with_max_depth", "with_domain_safe", "with_custom_bodies")]
    T += [("expr", (d, i, s)) for d in (True, False) for i in (True, False) for s in (True, False)]
    T += [("index", n) for n in (0, 1, 2)] + [("get", n) for n in ("get_rules_for_kind", "get_specific_func_rules", "get_generic_func_rules")] + [("of", k) for k in rec.KINDS] + [("names", None)]
    for name, st, why, b, fns in par.run(w_run, T, C):
        C.fns.update(fns); C.ob(name, st, why, bounded=b)
# ------------------------------------------------------------------ bounded: the real simplifier
def simp(t, ds): return R.dec(R.call(f"simp {ds} {R.enc(t)}", 20))
def joint_case(r, st):
    """what is remembered from one part must not leak into another: simplifying g(A, B, ...) simplifies A, B, ... as they would be alone"""
    g = simpdiff.G2(r, r.choice(("alg", "trig")), names=("x", "y"), special=r.random() < 0.15, ufs=(), poly=True); n = r.choice((2, 2, 3)); ds = r.choice((0, 1))
    As = [g.tree(r.choice((2, 3, 3))) for _ in range(n)]
    if r.random() < .4: As.append(As[0])
    if any(simpdiff.too_steep(t) for t in As): return None
    try: alone = [simp(t, ds) for t in As]; both = simp(("f", "gq", As), ds)
    except (R.RPanic, R.Timeout, KeyError, ValueError): st["no answer"] += 1; return None
    if both[0] != "f" or both[1] != "gq" or len(both[2]) != len(As): st["other shape"] += 1; return None
    for a, x, y in zip(As, alone, both[2]):
        if x == y: st["same"] += 1; continue
        st["other form"] += 1
        envs = [O.env(r, ["x", "y", "z"], pos=r.random() < .6) for _ in range(4)]
        w = simpdiff.value_mismatch(x, y, envs, st, True)
        if w and w[0] != "panic": return "joint:" + R.show(a)[:80], f"{R.show(a)} simplifies to {R.show(x)} alone, to {R.show(y)} inside gq({', '.join(R.show(t) for t in As)})", {"request": f"simp {ds} {R.enc(('f', 'gq', As))}"}
    return None
def depth_case(r, st):
    """what lies beyond the depth limit of 50 stays as it is, whatever kinds of nodes lead down to it"""
    n = r.randrange(40, 62); ds = r.choice((0, 1)); inner = r.choice((("f", "ln", [("f", "exp", [("s", "x")])]), ("^", ("^", ("s", "x"), ("n", 3.0)), ("n", 1.0)), ("f", "sin", [("*", [("n", -1.0), ("s", "x")])]), ("f", "cosh", [("*", [("n", -1.0), ("s", "x")])])))
    t = inner; k = 0; ks = r.choice(("f", "/f", "\\f", "+f", "*f", "^f", "2", "/\\+*^2f", "/\\+*^2f"))
    g = lambda u: ("f", "gq", [u])
    while k < n:
        c = r.choice(ks); a = ("s", f"a{k}")
        if c == "f": t = g(t); k += 1
        elif c == "2": t = ("f", "gq", r.choice(([a, t], [t, a]))); k += 1
        else: t = g({"/": ("/", a, g(t)), "\\": ("/", g(t), a), "+": ("+", [a, g(t)]), "*": ("*", [a, g(t)]), "^": ("^", g(t), a)}[c]); k += 3
    try: x = simp(t, ds)
    except (R.RPanic, R.Timeout): st["no answer"] += 1; return None
    there = any(u == inner for u in O.nodes(x)); st["untouched" if there else "changed"] += 1
    if k > 50 and not there: return f"depth limit:{k}:{ks}", f"{R.show(inner)} at depth {k}, beyond the limit 50, is rewritten", {"request": f"simp {ds} {R.enc(t)}"}
    return None
def bounded(C):
    BND_.run(C, "shared caches", joint_case, 2400, 30000, "2 to 4 expressions of depth at most 3 side by side, 4 points each when the forms differ", per=60)
    BND_.run(C, "depth limit", depth_case, 400, 3000, "40 to 61 levels of calls, sums, products, quotients and powers", per=25, seed=1)
def main():
    global _ST
    C = H.Check("C06")
    C.trusted = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor and std models (HashMap, HashSet, Arc)", "vf exponential-polynomial normaliser"]
    C.assume = ["a rule's answer depends on the expression and the simplifier's settings only (rules have no state of their own)", "structural equality of expressions is an equivalence (C11); equal expressions have equal hashes",
                "a simplifier's settings are not changed between two runs that share its caches (true of the public API: every call builds a new simplifier)", "recursion depth is bounded by the expression's depth, itself limited by max_depth"]
    p = mir.prog(); _ST = (p, den.base_contracts(p))
    contractual(C); bounded(C); rec.refuted(C); C.finish()
