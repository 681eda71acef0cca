"""Contracts of functions that recurse over expressions, decided kind by kind (structural induction): the real body runs on a
node of one kind, recursive calls are answered by the contract, the result is judged against the contract of the node."""
import random
from . import term as tm, mir, sym, models, den, harness as H
from .term import num, mk, var, fn, ZERO, ONE
from .sym import Ex, explore, Sym, SymV, StrSym, IdV, Ptr, Cell, ArcV, BoxV, VecV, Adt, MapV, Opaque, Tup
KINDS = ["Number", "Symbol", "FunctionCall", "Sum", "Product", "Div", "Pow", "Derivative", "Poly"]
def setup(ex, ly, kind, arity, nm="IN", poly=None):
    """a lazily known node of the given kind; returns (node, its kind value)"""
    IN = Sym(nm, ly.EX); ex.ghost["in"] = IN
    a = ex.refine_to(IN, 0); k = ex.force(a.f[ly.ef["kind"]]); ka = ex.refine_to(k, ly.kv[kind])
    if kind in ("Sum", "Product") and arity is not None:
        v = ka.f[0]; ex.ghost[("veclen", v.id)] = (arity, arity); ex.ghost.pop(("nest", v.id), None)
    if kind == "FunctionCall":
        v = ka.f[ly.kf[kind].index("args")]; ex.ghost[("veclen", v.id)] = (arity, arity)
        if arity == 0: ex.refine[v.id] = VecV(())
    if kind == "Poly" and poly is not None:
        po = ex.need_adt(den.strip(ex, ka.f[0])); v = po.f[ly.pf["terms"]]
        ex.ghost[("veclen", v.id)] = (poly, poly)
        if poly == 0: ex.refine[v.id] = VecV(())
        for t in ex.need_vec(v).e:
            t = ex.force(t)
    return IN, ka
def children(ex, ly, kind, ka):
    g = dict(zip(ly.kf[kind], ka.f))
    if kind in ("Number", "Symbol"): return []
    if kind == "FunctionCall": return list(ex.need_vec(g["args"]).e)
    if kind in ("Sum", "Product"): return list(ex.need_vec(ka.f[0]).e)
    if kind in ("Div", "Pow"): return list(ka.f)
    if kind == "Derivative": return [g["inner"]]
    return [ex.need_adt(den.strip(ex, ka.f[0])).f[ly.pf["base"]]]
def sig(ex, v):
    """what the recursive call makes of a child: a fresh denotation (the child's meaning under the assignment / substitution / clone)"""
    if ex.ghost.get("identity"): return den.ph(ex, v)
    lit = den.numlit(ex, v)
    return lit if lit is not None else var("sigma:" + str(key(ex, v)))
def sigma(ex, ly, kind, ka, t):
    """the node's meaning t with every child replaced by what the contract says of it"""
    ch = children(ex, ly, kind, ka)
    if kind == "Poly":
        po = ex.need_adt(den.strip(ex, ka.f[0])); b = sig(ex, ch[0]); t = ZERO
        for x in ex.need_vec(po.f[ly.pf["terms"]]).e:
            x = ex.force(x); k = ex.num_of(x.f[0])
            t = tm.add(t, tm.mul(ex.num_of(x.f[1]), mk("pow", b, k)))
        return t
    return tm.subst(t, {den.ph(ex, c): sig(ex, c) for c in ch})
def key(ex, v): return den.keyof(ex, den.strip(ex, v))
def kindname(ex, v):
    k = den.kind_of(ex, den.strip(ex, v))
    return None if k is None else ex.prog.types[k.ty]["v"][k.var]["n"]
def drive(C, p, cs, name, make_run, judge, max_paths=1500, budget=40, opts=None):
    """explore one obligation; judge(ex, value) -> (status, why). Returns (status, why, paths)"""
    o = dict(max_dec=80, max_steps=200000); o.update(opts or {})
    def make(dec): return Ex(p, cs, models, dec, den.opts(**o))
    r = explore(make, make_run, max_paths, budget)
    st, why, n = H.PROVED, "", 0
    for e, _ in r.unsupported: st, why = H.UNDECIDED, "unsupported: " + e
    for e, pe in r.panics:
        if o.get("ignore_panic") and o["ignore_panic"](str(e)): continue
        st, why = H.UNDECIDED, "panic path: " + str(e)
        if o.get("nopanic") and o["nopanic"](pe, str(e)): st, why = H.REFUTED, "panics: " + str(e)
    if r.cut: st, why = H.UNDECIDED, f"cut {r.cut[0][0]}"
    for ex, v in r.paths:
        try:
            den.finish(ex)
            s, w = judge(ex, v)
        except (sym.Infeasible, den.Malformed): continue
        except Exception as e:
            if __import__("os").environ.get("VTB"): __import__("traceback").print_exc()
            s, w = H.UNDECIDED, f"{type(e).__name__} {e}"
        n += 1
        if s != H.PROVED and st != H.REFUTED: st, why = s, w
    if n == 0 and st == H.PROVED: st, why = H.UNDECIDED, "no path"
    return st, why or f"{n} paths", n
def zpow(ex, t):
    """0^u is 0 where the path says u > 0"""
    t = ex.nf(t); memo = {}
    def go(u):
        if u in memo: return memo[u]
        if any(isinstance(x, tm.T) for x in u.a): r = mk(u.op, *[go(x) if isinstance(x, tm.T) else x for x in u.a])
        else: r = u
        if r.op == "pow" and r.a[0] is ZERO:
            b = ex.cmp("lt", ZERO, r.a[1])
            if b is True or (b is not False and ex.decide(b) is True): r = ZERO
        memo[u] = r; return r
    return go(t)
def den_judge(ex, spec, v, rnd):
    l = zpow(ex, den.expand(ex, spec)); rr = zpow(ex, den.expand(ex, den.ph(ex, v)))
    s, w, _ = H.judge(ex, l, rr, rnd)
    if s == H.REFUTED and w.startswith("right side undefined"): s = H.UNDECIDED
    return s, (f"{w}: {tm.show(rr)[:200]} should be {tm.show(l)[:200]}" if s != H.PROVED else "")
def refuted(C):
    for o in C.obs:
        if o.status == H.REFUTED and C.baseline.get(o.name) in (H.PROVED, "bounded"):
            C.violate("obligation:" + o.name, f"obligation {o.name}: {o.why}", {"kind": "obligation", "obligation": o.name, "verifier": o.why}, confirmed=False)
