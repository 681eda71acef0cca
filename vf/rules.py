"""Verification of every simplification rule's apply(): den(result) == den(input)."""
import re, time, math
from fractions import Fraction
import mpmath
from mpmath import mpf
from . import term as tm, mir, sym, models, den, harness as H, replay as R
from .term import T, num, mk, var, fn
from .sym import Ex, explore, Adt, Tup, VecV, Ptr, ArcV, Cell, Sym, SymV, IdV, Unsupported, Infeasible
RX = re.compile(r"^<symb_anafis::simplification::rules::([\w:]+)::(\w+) as symb_anafis::simplification::rules::Rule>::apply$")

def rule_fns(p):
    out = {}
    for f in p.fns:
        m = RX.match(f["name"])
        if m: out[m.group(2)] = (m.group(1), f)
    return out
def const_call(p, name, cs):
    f = p.fn(name)
    if f is None: return None
    ex = Ex(p, cs, models, [], den.opts())
    a = [Ptr(Cell(sym.UNIT))] if f["body"]["argc"] else []
    return ex, ex.call(f["id"], a)
def rule_meta(p, name, f, cs):
    pre = f["name"][:-len("apply")]
    r = {"kinds": None, "targets": None, "alters": False}
    try:
        x = const_call(p, pre + "applies_to", cs)
        if x:
            ex, v = x; v = ex.need_vec(v)
            r["kinds"] = [p.types[ex.need_adt(k).ty]["v"][ex.need_adt(k).var]["n"] for k in v.e]
    except (Unsupported, sym.Panic, Infeasible): pass
    try:
        x = const_call(p, pre + "target_functions", cs)
        if x:
            ex, v = x; v = ex.need_vec(v); t = []
            for k in v.e:
                k = ex.force(k)
                t.append(ex.sym_name(k.s if isinstance(k, IdV) else k)[0])
            r["targets"] = t
    except (Unsupported, sym.Panic, Infeasible) as e: r["terr"] = str(e)
    try:
        x = const_call(p, pre + "alters_domain", cs)
        if x: r["alters"] = bool(x[1])
    except (Unsupported, sym.Panic, Infeasible): pass
    return r
def setctx(ex, p, f, ds):
    """the RuleContext argument with a fixed mode"""
    ty = f["body"]["locals"][3]; et = p.types[ty]["e"]
    c = Sym(ex.fresh_id("ctx"), et)
    a = ex.refine_to(c, 0)
    i = [n for n, _ in p.types[et]["v"][0]["f"]].index("domain_safe")
    fs = list(a.f); fs[i] = ds
    return Ptr(Cell(Adt(a.ty, a.var, fs)))
def run_rule(p, f, cs, kind, targets, ds, arity=3, max_paths=400, budget=20.0, extra=None):
    ly = den.lay(p)
    def make(dec): return Ex(p, cs, models, dec, den.opts(arity=arity, max_dec=90, max_steps=150000, rec_bound=2, **(extra or {})))
    def run(ex):
        e = Sym("IN", ly.EX)
        ex.ghost["in"] = e
        a = ex.refine_to(e, 0)
        k = ex.force(a.f[ly.ef["kind"]])
        vn = {"Number": "Number", "Symbol": "Symbol", "Function": "FunctionCall", "Sum": "Sum", "Product": "Product", "Div": "Div", "Pow": "Pow", "Derivative": "Derivative", "Poly": "Poly"}.get(kind, kind)
        ka = ex.refine_to(k, ly.kv[vn])
        if vn == "FunctionCall" and targets:
            nm = ex.force(ka.f[ly.kf[vn].index("name")])
            i = ex.choose(len(targets), "target")
            ex.symname[nm.id] = targets[i]
        slf = Ptr(Cell(sym.UNIT))
        r = ex.call(f["id"], [slf, Ptr(Cell(ArcV(Cell(e)))), setctx(ex, p, f, ds)])
        r = ex.need_adt(r)
        if r.var == 0: return None
        return r.f[0]
    return explore(make, run, max_paths, budget)
