"""Denotations of the library's expression values and the contracts of its constructors.

Every Expr value has a ghost denotation, a term.  Values produced by a contract are opaque: only
their denotation is known, their structure is refined lazily and constrained to that denotation.
"""
import re
from fractions import Fraction
import mpmath
from . import term as tm, sym, models
from .term import T, num, mk, var, fn, ZERO, ONE
from .sym import (Ex, Adt, Tup, VecV, Ptr, ArcV, BoxV, Clo, FnItem, Sym, SymV, IdV, StrSym, MapV, Cell, Opaque, Named,
                  Unsupported, Infeasible, Cutoff, bnot)

EXPR = "symb_anafis::core::expr::Expr"
KIND = "symb_anafis::core::expr::ExprKind"
POLY = "symb_anafis::core::poly::Polynomial"
CTOR = "symb_anafis::core::expr::constructors::<impl symb_anafis::core::expr::Expr>::"
CONST = {"pi": tm.PI, "PI": tm.PI, "Pi": tm.PI, "e": tm.E1, "E": tm.E1}
ALIAS = {"sign": "signum", "sgn": "signum", "log1p": "ln1p"}

class Malformed(Infeasible):
    """a call of a built-in with the wrong number of arguments: outside the precondition"""
ONEARG = "sin cos tan cot sec csc asin acos atan acot asec acsc sinh cosh tanh coth sech csch asinh acosh atanh acoth asech acsch exp ln log10 log2 sqrt cbrt abs signum sign sgn erf erfc gamma lgamma digamma trigamma tetragamma lambertw elliptic_k elliptic_e zeta sinc exp_polar floor ceil round".split()
AR = {n: (1, 1) for n in ONEARG}
AR.update({n: (2, 2) for n in "log atan2 beta besselj bessely besseli besselk polygamma zeta_deriv hermite".split()})
AR.update({"assoc_legendre": (3, 3), "spherical_harmonic": (4, 4), "ynm": (4, 4)})
def arities(p): return AR
class HashV:
    __slots__ = ("o",)
    def __init__(self, o): self.o = o

class L:
    """type layout of the current program"""
    def __init__(self, p):
        self.p = p
        self.EX = p.adt(EXPR); self.KI = p.adt(KIND); self.PO = p.adt(POLY)
        t = p.types[self.EX]["v"][0]["f"]; self.ef = {n: i for i, (n, _) in enumerate(t)}
        self.efty = {n: ty for n, ty in t}
        self.kv = {v["n"]: i for i, v in enumerate(p.types[self.KI]["v"])}
        self.kf = {v["n"]: [f[0] for f in v["f"]] for v in p.types[self.KI]["v"]}
        self.kfty = {v["n"]: [f[1] for f in v["f"]] for v in p.types[self.KI]["v"]}
        self.pf = {n: i for i, (n, _) in enumerate(p.types[self.PO]["v"][0]["f"])} if self.PO is not None else {}
        self.pfty = {n: ty for n, ty in p.types[self.PO]["v"][0]["f"]} if self.PO is not None else {}
_L = {}
def lay(p):
    r = _L.get(id(p))
    if r is None: r = _L[id(p)] = L(p)
    return r

# ------------------------------------------------------------------ placeholder / expansion
def obj(ex, v):
    """the Expr value behind refs"""
    v = ex.deref_all(v) if not isinstance(v, Adt) else v
    return v
def reg(ex): return ex.ghost.setdefault("ph", {})
def ph(ex, v):
    """placeholder variable denoting an Expr / Polynomial value"""
    raw = v
    while isinstance(raw, (Ptr, ArcV, BoxV)): raw = ex.load(raw)
    # follow aliases between Syms
    while isinstance(raw, Sym):
        n = ex.refine.get(raw.id)
        if isinstance(n, Sym): raw = n
        else: break
    if isinstance(raw, Sym): key = raw.id
    elif isinstance(raw, Adt):
        if raw.origin is not None: key = raw.origin
        else:
            m = ex.ghost.setdefault("phid", {})
            key = m.get(id(raw))
            if key is None:
                key = m[id(raw)] = ex.fresh_id("A"); ex.ghost.setdefault("keep", []).append(raw)
    else: raise Unsupported(f"denotation of {type(raw).__name__}")
    r = reg(ex); x = var("E:" + key)
    if x not in r: r[x] = raw
    return x
def expand(ex, t, memo=None):
    """replace placeholders by structure / contract definitions, at the current refinement"""
    for _ in range(60):
        vs = [v for v in tm.free_vars(t) if isinstance(v.a[0], str) and v.a[0].startswith("E:")]
        m = {}
        for v in vs:
            d = unfold(ex, v) if v in reg(ex) else ex.den_of.get(v.a[0][2:])
            if d is not None and d is not v: m[v] = d
        if not m: return ex.nf(t)
        t = tm.subst(t, m)
    raise Cutoff("expand")
def unfold(ex, v):
    raw = reg(ex)[v]
    key = v.a[0][2:]
    # alias chain / contract
    seen = key
    o = raw
    while True:
        d = ex.den_of.get(seen)
        if d is not None: return d
        if isinstance(o, Sym):
            n = ex.refine.get(o.id)
            if n is None: return None
            o = n
            if isinstance(o, Sym): seen = o.id; continue
            seen = o.origin if isinstance(o, Adt) and o.origin is not None else seen
            if seen in ex.den_of: return ex.den_of[seen]
        break
    return struct_den(ex, o)
def struct_den(ex, o):
    ly = lay(ex.prog)
    if o.ty == ly.EX:
        k = ex.force(o.f[ly.ef["kind"]])
        if isinstance(k, Sym):
            key = ex.ghost.get("kparent", {}).get(k.id) or o.origin
            return var("E:" + key) if key else None
        return kind_den(ex, k)
    if o.ty == ly.KI: return kind_den(ex, o)
    if o.ty == ly.PO: return poly_den(ex, o)
    raise Unsupported("den of type")
def sym_term(ex, s):
    n, root = ex.sym_name(s)
    if n is None: return var("s:" + root)
    return CONST.get(n) or var("s:" + n)
def fn_term(ex, s, args):
    n, root = ex.sym_name(s)
    if n is None: return fn("uf:" + root, *args)
    n = ALIAS.get(n, n)
    if n == "sqrt" and len(args) == 1: return tm.sqrt(args[0])
    if n == "polygamma" and len(args) == 2: pass
    return fn(n, *args)
def vec_opt(ex, v):
    v = ex.force(v)
    while isinstance(v, (Ptr, BoxV)): v = ex.force(ex.load(v))
    if isinstance(v, VecV): return v.e
    return None
def kind_den(ex, k):
    ly = lay(ex.prog); n = ex.prog.types[k.ty]["v"][k.var]["n"]
    F = dict(zip(ly.kf[n], k.f))
    g = list(k.f)
    if n == "Number": return ex.nf(ex.num_of(g[0]))
    if n == "Symbol": return sym_term(ex, ex.force(g[0]))
    if n == "FunctionCall":
        a = vec_opt(ex, F["args"])
        if a is None: return fn_term(ex, ex.force(F["name"]), [var("args:" + ex.force(F["args"]).id)])
        nm, _ = ex.sym_name(ex.force(F["name"]))
        ar = arities(ex.prog).get(nm)
        if ar and not (ar[0] <= len(a) <= ar[1]): raise Malformed(nm)
        return fn_term(ex, ex.force(F["name"]), [ph(ex, x) for x in a])
    if n in ("Sum", "Product"):
        a = vec_opt(ex, g[0])
        if a is None: return var(("sum:" if n == "Sum" else "prod:") + ex.force(g[0]).id)
        return (tm.addn if n == "Sum" else tm.muln)([ph(ex, x) for x in a])
    if n == "Div": return tm.div(ph(ex, g[0]), ph(ex, g[1]))
    if n == "Pow": return powd(ph(ex, g[0]), ph(ex, g[1]))
    if n == "Poly": return ph(ex, g[0])
    if n == "Derivative":
        s = ex.force(F["var"]); nm, root = ex.sym_name(s)
        return fn("D:" + (nm or root), ph(ex, F["inner"]), ex.num_of(F["order"]))
    raise Unsupported("kind " + n)
def powd(b, e): return mk("pow", b, e) if not tm.isnum(e) else tm.powt(b, e)
def poly_den(ex, o):
    ly = lay(ex.prog)
    ts = vec_opt(ex, o.f[ly.pf["terms"]])
    if ts is None: return var("pt:" + str(getattr(ex.force(o.f[ly.pf["terms"]]), "id", "?")))
    b = ph(ex, o.f[ly.pf["base"]]); r = ZERO
    for t in ts:
        t = ex.force(t)
        if not isinstance(t, Tup): raise Unsupported("poly term")
        r = tm.add(r, tm.mul(ex.num_of(t.f[1]), tm.powt(b, ex.num_of(t.f[0]))))
    return r

# ------------------------------------------------------------------ refinement hooks
def on_refine(ex, s, r):
    """a contract result was inspected: its structure must denote what the contract says"""
    ly = lay(ex.prog)
    if s.ty == ly.EX:
        k = ex.force(r.f[ly.ef["kind"]])
        if isinstance(k, Sym): ex.ghost.setdefault("kparent", {})[k.id] = s.id
    elif s.ty == ly.KI:
        par = ex.ghost.get("kparent", {}).get(s.id)
        d = ex.den_of.get(par) if par else None
        if d is not None:
            ex.ghost.setdefault("pend", []).append((d, r))
            n = ex.prog.types[r.ty]["v"][r.var]["n"]
            if n == "Number": settle(ex)
    elif s.ty == ly.PO:
        d = ex.den_of.get(s.id)
        if d is not None: ex.ghost.setdefault("pend", []).append((d, r))
def settle(ex):
    for d, r in ex.ghost.pop("pend", []):
        x = expand(ex, d); y = expand(ex, struct_den(ex, r))
        ex.solve(x, y)
def refine_hook(ex, s, t, vi):
    ly = lay(ex.prog)
    if s.ty == ly.EX:
        f = []
        for n, ty in t["v"][0]["f"]:
            if n == "hash": f.append(HashV(s))
            else: f.append(ex.fresh(ty, "v", s.depth))
        nk = ex.ghost.get(("nokind", s.id))
        if nk is not None:
            k = f[ly.ef["kind"]]
            ex.excl.setdefault(k.id, set()).add(nk)
        r = Adt(s.ty, 0, f, s.id)
        ex.refine[s.id] = r; ex.on_refine(s, r); return r
    if s.ty == ly.KI and t["v"][vi]["n"] in ("Sum", "Product"):
        f = [ex.fresh(ty, "v", s.depth) for _, ty in t["v"][vi]["f"]]
        if isinstance(f[0], Sym):
            ex.ghost[("veclen", f[0].id)] = (2, max(2, ex.arity)); ex.ghost[("nest", f[0].id)] = vi
        r = Adt(s.ty, vi, f, s.id)
        ex.refine[s.id] = r; ex.on_refine(s, r); return r
    if s.ty == ly.KI and t["v"][vi]["n"] == "FunctionCall":
        f = [ex.fresh(ty, "v", s.depth) for _, ty in t["v"][vi]["f"]]
        v = f[ly.kf["FunctionCall"].index("args")]
        if isinstance(v, Sym): ex.ghost[("veclen", v.id)] = (1, 3)
        r = Adt(s.ty, vi, f, s.id)
        ex.refine[s.id] = r; ex.on_refine(s, r); return r
    return None

def vec_hook(ex, v, r):
    """data invariant of Expr: an operand of a Sum is not a Sum, an operand of a Product is not a Product"""
    vi = ex.ghost.get(("nest", v.id))
    if vi is None: return
    for x in r.e:
        x = strip(ex, x)
        if isinstance(x, Sym): ex.ghost[("nokind", x.id)] = vi

# ------------------------------------------------------------------ structural equality
def expr_eq(ex, x, y):
    """contract of structural equality: true implies equal structure up to operand order, hence equal denotation"""
    x, y = strip(ex, x), strip(ex, y)
    if x is y: return True
    fx, fy = ex.force(x), ex.force(y)
    if fx is fy: return True
    q = quick(ex, fx, fy)
    if q is not None: return q
    kx, ky = keyof(ex, x), keyof(ex, y)
    seen = ex.ghost.setdefault("neq", set())
    if (kx, ky) in seen or (ky, kx) in seen: return False
    if (kx, ky) in ex.ghost.setdefault("eqs", set()): return True
    if ex.choose(2, f"{kx}=={ky}") == 0:
        unify(ex, x, y); ex.ghost["eqs"].add((kx, ky)); ex.ghost["eqs"].add((ky, kx)); return True
    seen.add((kx, ky)); return False
def strip(ex, v):
    while isinstance(v, (Ptr, ArcV, BoxV)): v = ex.load(v)
    return v
def keyof(ex, v):
    if isinstance(v, Sym):
        while isinstance(ex.refine.get(v.id), Sym): v = ex.refine[v.id]
        return v.id
    if isinstance(v, Adt) and v.origin is not None: return v.origin
    m = ex.ghost.setdefault("phid", {})
    k = m.get(id(v))
    if k is None: k = m[id(v)] = ex.fresh_id("A"); ex.ghost.setdefault("keep", []).append(v)
    return k
def kind_of(ex, v):
    ly = lay(ex.prog); v = ex.force(v)
    if isinstance(v, Sym): return None
    if v.ty == ly.EX:
        v = ex.force(v.f[ly.ef["kind"]])
        if isinstance(v, Sym): return None
    return v
def quick(ex, x, y):
    a, b = kind_of(ex, x), kind_of(ex, y)
    if a is None or b is None: return None
    if a.var != b.var: return False
    n = ex.prog.types[a.ty]["v"][a.var]["n"]
    if n == "Number":
        p, q = ex.nf(ex.num_of(a.f[0])), ex.nf(ex.num_of(b.f[0]))
        return ex.branch(ex.cmp("eq", p, q))
    if n == "Symbol": return ex.sym_eq(ex.force(a.f[0]), ex.force(b.f[0]))
    if n in ("Div", "Pow"): return expr_eq(ex, a.f[0], b.f[0]) and expr_eq(ex, a.f[1], b.f[1])
    if n == "FunctionCall":
        ly = lay(ex.prog); i, j = ly.kf[n].index("name"), ly.kf[n].index("args")
        if not ex.sym_eq(ex.force(a.f[i]), ex.force(b.f[i])): return False
        u, w = vec_opt(ex, a.f[j]), vec_opt(ex, b.f[j])
        if u is None or w is None: return None
        if len(u) != len(w): return False
        return all(expr_eq(ex, p, q) for p, q in zip(u, w))
    if n in ("Sum", "Product"):
        u, w = vec_opt(ex, a.f[0]), vec_opt(ex, b.f[0])
        if u is None or w is None: return None
        if len(u) != len(w): return False
        if all(strip(ex, p) is strip(ex, q) for p, q in zip(u, w)): return True
    return None
def unify(ex, x, y):
    fx, fy = ex.force(x), ex.force(y)
    if fx is fy: return
    if isinstance(fx, Sym) and fx.id not in ex.den_of and not occurs(ex, fx, fy): exclude(ex, fx, fy); ex.refine[fx.id] = fy; return
    if isinstance(fy, Sym) and fy.id not in ex.den_of and not occurs(ex, fy, fx): exclude(ex, fy, fx); ex.refine[fy.id] = fx; return
    ly = lay(ex.prog)
    if isinstance(fx, Sym) and fx.ty == ly.EX: fx = ex.refine_to(fx, 0)
    if isinstance(fy, Sym) and fy.ty == ly.EX: fy = ex.refine_to(fy, 0)
    a = fx if isinstance(fx, Sym) else ex.force(fx.f[ly.ef["kind"]]) if fx.ty == ly.EX else fx
    b = fy if isinstance(fy, Sym) else ex.force(fy.f[ly.ef["kind"]]) if fy.ty == ly.EX else fy
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.var != b.var: raise Infeasible()
        n = ex.prog.types[a.ty]["v"][a.var]["n"]
        if n == "FunctionCall":
            i, j = ly.kf[n].index("name"), ly.kf[n].index("args")
            if not ex.sym_eq(ex.force(a.f[i]), ex.force(b.f[i])): raise Infeasible()
            u, w = ex.force(a.f[j]), ex.force(b.f[j])
            if isinstance(u, Sym): ex.refine[u.id] = w; return
            if isinstance(w, Sym): ex.refine[w.id] = u; return
            if len(u.e) != len(w.e): raise Infeasible()
            for p, q in zip(u.e, w.e):
                if not expr_eq(ex, p, q): raise Infeasible()
            return
    elif isinstance(a, Sym) and isinstance(b, (Adt, Sym)) and a.ty == ly.KI and ex.ghost.get("kparent", {}).get(a.id) not in ex.den_of:
        ex.refine[a.id] = b; return
    elif isinstance(b, Sym) and isinstance(a, Adt) and b.ty == ly.KI and ex.ghost.get("kparent", {}).get(b.id) not in ex.den_of:
        ex.refine[b.id] = a; return
    ex.ghost.setdefault("eqd", []).append((ph(ex, x), ph(ex, y)))
def exclude(ex, s, v):
    """s is about to alias v: carry over the kinds s must not have"""
    ly = lay(ex.prog)
    nk = ex.ghost.get(("nokind", s.id)) if s.ty == ly.EX else None
    no = set(ex.excl.get(s.id, ())) if s.ty == ly.KI else ({nk} if nk is not None else set())
    if not no: return
    k = kind_of(ex, v)
    if k is not None:
        if k.var in no: raise Infeasible()
        return
    if isinstance(v, Sym) and v.ty == ly.EX:
        if nk is not None: ex.ghost[("nokind", v.id)] = nk
        return
    k = ex.force(v.f[ly.ef["kind"]]) if isinstance(v, Adt) else v
    if isinstance(k, Sym): ex.excl.setdefault(k.id, set()).update(no)
def occurs(ex, s, v, depth=0):
    v = ex.force(v)
    if v is s: return True
    if depth > 12: return True
    if isinstance(v, (Ptr, ArcV, BoxV)): return occurs(ex, s, ex.load(v), depth + 1)
    if isinstance(v, (Adt, Tup)): return any(occurs(ex, s, x, depth + 1) for x in v.f if not isinstance(x, HashV))
    if isinstance(v, VecV): return any(occurs(ex, s, x, depth + 1) for x in v.e)
    return False
def finish(ex):
    """record the equations the path established; call before judging"""
    settle(ex)
    for a, b in ex.ghost.pop("eqd", []):
        x, y = expand(ex, a), expand(ex, b)
        ex.solve(x, y)
    ex.eqs = [(expand(ex, a), expand(ex, b)) for a, b in ex.eqs]

# ------------------------------------------------------------------ contract results
def mkexpr(ex, t):
    """opaque Expr whose denotation is t"""
    ly = lay(ex.prog)
    s = Sym(ex.fresh_id("R"), ly.EX, 1)
    ex.den_of[s.id] = t
    return s
def mkpoly(ex, t):
    ly = lay(ex.prog); s = Sym(ex.fresh_id("RP"), ly.PO, 1); ex.den_of[s.id] = t; return s
def mknumber(ex, t):
    ly = lay(ex.prog)
    return mkkind(ex, "Number", [t])
def mkkind(ex, n, fields):
    ly = lay(ex.prog)
    k = Adt(ly.KI, ly.kv[n], fields)
    f = [None] * len(ly.ef)
    e = Adt(ly.EX, 0, f)
    f = []
    for nm in ly.ef:
        f.append(k if nm == "kind" else HashV(None) if nm == "hash" else 0)
    e = Adt(ly.EX, 0, f)
    e.f[ly.ef["hash"]].o = e
    return e
def numlit(ex, v):
    """T if the Expr value is a literal Number"""
    k = kind_of(ex, strip(ex, v))
    if k is not None and ex.prog.types[k.ty]["v"][k.var]["n"] == "Number": return ex.nf(ex.num_of(k.f[0]))
    return None

def items(ex, v): return list(ex.need_vec(v).e) if not isinstance(v, sym.IterV) else v.rest()
def nary(op):
    def h(ex, f, a):
        xs = items(ex, a[0])
        ts = [ph(ex, x) for x in xs]
        if not xs: return mknumber(ex, ZERO if op is tm.addn else ONE)
        ls = [numlit(ex, x) for x in xs]
        if all(l is not None for l in ls): return mknumber(ex, op(ls))
        if len(xs) == 1: return strip(ex, xs[0])
        return mkexpr(ex, op(ts))
    return h
def bin_(op):
    def h(ex, f, a):
        x, y = numlit(ex, a[0]), numlit(ex, a[1])
        return mkexpr(ex, op(ph(ex, a[0]), ph(ex, a[1])))
    return h
def c_number(ex, f, a): return mknumber(ex, ex.num_of(a[0]))
def c_symbol_s(ex, f, a):
    s = models.S(ex, a[0])
    sy = ex.known_symbol(s) if isinstance(s, str) else s.s
    return mkkind(ex, "Symbol", [sy])
def symval(ex, v):
    v = ex.deref_all(v)
    if isinstance(v, SymV): return v
    if isinstance(v, str): return ex.known_symbol(v)
    if isinstance(v, StrSym): return v.s
    if isinstance(v, Adt):
        # Symbol(id) wrapper
        for x in v.f:
            x = ex.force(x)
            if isinstance(x, IdV): return x.s
            if isinstance(x, SymV): return x
    raise Unsupported(f"symbol of {type(v).__name__}")
def mkcall(ex, s, args):
    ly = lay(ex.prog); n = "FunctionCall"
    fs = [None] * len(ly.kf[n])
    fs[ly.kf[n].index("name")] = s
    fs[ly.kf[n].index("args")] = VecV([x if isinstance(x, ArcV) else ArcV(Cell(x)) for x in args])
    return mkkind(ex, n, fs)
def c_func1(ex, f, a): return mkcall(ex, symval(ex, a[0]), [a[1]])
def c_funcn(ex, f, a): return mkcall(ex, symval(ex, a[0]), items(ex, a[1]))
def c_new(ex, f, a):
    k = ex.force(a[0])
    ly = lay(ex.prog)
    fs = [k if nm == "kind" else HashV(None) if nm == "hash" else 0 for nm in ly.ef]
    e = Adt(ly.EX, 0, fs); fs[ly.ef["hash"]].o = e
    return e
def unar(op): return lambda ex, f, a: mkexpr(ex, op(ph(ex, a[0])))
def c_eq(ex, f, a): return expr_eq(ex, a[0], a[1])
def c_ne(ex, f, a): return not expr_eq(ex, a[0], a[1])
def c_cmp(ex, f, a):
    """any total order: antisymmetric and consistent on the pairs asked"""
    x, y = strip(ex, a[0]), strip(ex, a[1])
    kx, ky = keyof(ex, x), keyof(ex, y)
    if kx == ky or ex.force(x) is ex.force(y): return models.ordering(ex, 0)
    m = ex.ghost.setdefault("ord", {})
    if (kx, ky) in m: return models.ordering(ex, m[(kx, ky)])
    c = ex.choose(2, "cmp") ; c = -1 if c == 0 else 1
    m[(kx, ky)] = c; m[(ky, kx)] = -c
    return models.ordering(ex, c)
def c_clone(ex, f, a): return ex.force(ex.load(a[0]))
def c_box(ex, f, a):
    v = ex.force(a[0])
    return v
def c_interned(ex, f, a):
    s = models.S(ex, a[0])
    return ex.known_symbol(s) if isinstance(s, str) else s.s
def c_symid(ex, f, a): return IdV(symval(ex, a[0]))
def c_getsym(ex, f, a):
    v = ex.deref_all(a[0]); return v.s if isinstance(v, IdV) else v
def c_as_str(ex, f, a): return models.S(ex, symval(ex, a[0]))
def c_noop_drop(ex, f, a): return sym.UNIT
def sort_hook(ex, f, l, a):
    """sorting by the canonical comparison is some permutation: denotation of sums and products does not depend on it.
    Only used where the elements are expressions."""
    if all(is_expr(ex, x) for x in l): return list(l)
    return None
def is_expr(ex, x):
    x = strip(ex, x); ly = lay(ex.prog)
    return isinstance(x, (Sym, Adt)) and x.ty == ly.EX
def hash_eq(ex, a, b):
    ga, gb = getattr(a, "o", None), getattr(b, "o", None)
    return expr_eq(ex, ga, gb)

POLYM = POLY + "::"
def c_poly_try(ex, f, a):
    """try_from_expr: None, or a polynomial denoting the same"""
    if ex.choose(2, "try_from_expr") == 0: return models.none(ex)
    return models.some(ex, mkpoly(ex, ph(ex, a[0])))
def pbin(op): return lambda ex, f, a: mkpoly(ex, op(ph(ex, a[0]), ph(ex, a[1])))

def base_contracts(p):
    """constructors, equality, ordering, interning and polynomial arithmetic, as contracts"""
    c = {}
    def put(names, h):
        for n in names:
            c[n] = h
    K = lambda *ns: [CTOR + n for n in ns]
    put(K("number"), c_number)
    put(K("sum", "sum_from_arcs"), nary(tm.addn))
    put(K("product", "product_from_arcs"), nary(tm.muln))
    put(K("mul_expr", "mul_from_arcs2"), bin_(tm.mul)); put(K("add_expr"), bin_(tm.add)); put(K("sub_expr"), bin_(tm.sub))
    put(K("div_expr", "div_from_arcs"), bin_(tm.div)); put(K("pow_static", "pow_from_arcs"), bin_(powd))
    put(K("negate"), unar(tm.neg))
    put(K("func_symbol", "func_symbol_arc"), c_func1)
    put(K("func_multi_from_arcs_symbol", "func_multi_symbol", "func_multi_from_arcs", "func_multi"), c_funcn)
    put(K("new"), c_new)
    put([EXPR + "::new"], c_new)
    put([f"<{EXPR} as std::cmp::PartialEq>::eq", f"<{KIND} as std::cmp::PartialEq>::eq"], c_eq)
    put([f"<{EXPR} as std::clone::Clone>::clone", f"<{KIND} as std::clone::Clone>::clone", f"<{POLY} as std::clone::Clone>::clone",
         "<symb_anafis::core::symbol::interned::InternedSymbol as std::clone::Clone>::clone"], c_clone)
    put(["symb_anafis::core::expr::ordering::expr_cmp"], c_cmp)
    put(["symb_anafis::core::symbol::registry::symb_interned", "symb_anafis::core::known_symbols::get_interned"], c_interned)
    put(["symb_anafis::core::symbol::interned::InternedSymbol::id"], c_symid)
    put(["symb_anafis::core::known_symbols::get_symbol"], c_getsym)
    put(["symb_anafis::core::known_symbols::intern_id"], lambda ex, f, a: IdV(c_interned(ex, f, a)))
    put(["symb_anafis::core::symbol::interned::InternedSymbol::as_str", "symb_anafis::core::symbol::interned::InternedSymbol::name"], c_as_str)
    put(["<symb_anafis::core::symbol::interned::InternedSymbol as std::cmp::PartialEq>::eq"], lambda ex, f, a: ex.sym_eq(symval(ex, a[0]), symval(ex, a[1])))
    put([POLYM + "try_from_expr"], c_poly_try)
    put([POLYM + "to_expr"], lambda ex, f, a: mkexpr(ex, ph(ex, a[0])))
    put([POLYM + n for n in ("add",)], pbin(tm.add)); put([POLYM + "sub"], pbin(tm.sub)); put([POLYM + "mul"], pbin(tm.mul))
    put([POLYM + "negate"], lambda ex, f, a: mkpoly(ex, tm.neg(ph(ex, a[0]))))
    put([POLYM + "scale"], lambda ex, f, a: mkpoly(ex, tm.mul(ex.num_of(a[1]), ph(ex, a[0]))))
    return c
def eq_hook(ex, x, y):
    if isinstance(x, HashV) and isinstance(y, HashV): return hash_eq(ex, x, y)
    if is_expr(ex, x) and is_expr(ex, y): return expr_eq(ex, x, y)
    return None
def opts(**kw):
    o = {"refine_hook": refine_hook, "on_refine": on_refine, "sort": sort_hook, "eq": eq_hook, "vec_hook": vec_hook}
    o.update(kw); return o

# ------------------------------------------------------------------ concretisation: lazily refined value -> tree
def to_tree(ex, v, env, names, depth=0):
    """env: T var -> number; unresolved subexpressions become symbols (recorded in names: symbol -> T var)"""
    ly = lay(ex.prog)
    v0 = strip(ex, v); v = ex.force(v0)
    key = keyof(ex, v0)
    def leaf():
        x = var("E:" + key)
        for s, (t, _) in names.items():
            if t is x: return ("s", s)
        s = "q%d" % len(names); names[s] = (x, env.get(x)); return ("s", s)
    if isinstance(v, Sym): return leaf()
    if v.ty == ly.PO: return poly_tree(ex, v, env, names)
    k = ex.force(v.f[ly.ef["kind"]]) if v.ty == ly.EX else v
    if isinstance(k, Sym): return leaf()
    n = ex.prog.types[k.ty]["v"][k.var]["n"]
    g = k.f; F = dict(zip(ly.kf[n], g))
    if n == "Number":
        t = expand(ex, ex.num_of(g[0]))
        return ("n", float(tm.neval(t, env)))
    if n == "Symbol": return ("s", symname(ex, g[0], env, names))
    ch = lambda x: to_tree(ex, x, env, names, depth + 1)
    if n == "FunctionCall":
        nm, root = ex.sym_name(ex.force(F["name"]))
        a = vec_opt(ex, F["args"])
        return ("f", nm or "ufun_" + re.sub(r"\W", "", root), [ch(x) for x in a] if a is not None else [("s", "q_arg")])
    if n in ("Sum", "Product"):
        a = vec_opt(ex, g[0])
        return ("+" if n == "Sum" else "*", [ch(x) for x in a] if a is not None else [("s", "qa"), ("s", "qb")])
    if n == "Div": return ("/", ch(g[0]), ch(g[1]))
    if n == "Pow": return ("^", ch(g[0]), ch(g[1]))
    if n == "Derivative": return ("d", ch(F["inner"]), symname(ex, F["var"], env, names), max(1, int(tm.neval(ex.nf(ex.num_of(F["order"])), env))))
    if n == "Poly": return poly_tree(ex, ex.force(ex.deref_all(g[0])), env, names)
    raise Unsupported(n)
def symname(ex, s, env, names):
    nm, root = ex.sym_name(ex.force(s))
    if nm: return nm
    n = "z" + re.sub(r"\W", "", root)
    names.setdefault(n, (var("s:" + root), env.get(var("s:" + root)))); return n
def poly_tree(ex, o, env, names):
    ly = lay(ex.prog)
    if isinstance(o, Sym): return ("P", ("s", "qb"), [(2, 1.0), (0, 3.0)])
    ts = vec_opt(ex, o.f[ly.pf["terms"]])
    b = to_tree(ex, o.f[ly.pf["base"]], env, names)
    out = []
    for t in (ts or []):
        t = ex.force(t)
        out.append((int(tm.neval(ex.nf(ex.num_of(t.f[0])), env)), float(tm.neval(ex.nf(ex.num_of(t.f[1])), env))))
    if ts is None: out = [(0, 3.0), (2, 1.0)]
    return ("P", b, out)
