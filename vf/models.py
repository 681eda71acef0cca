"""Models (assumed contracts) of the standard library, slotmap, num_traits for the MIR executor."""
import re
from fractions import Fraction
from . import term as tm
from .term import T, num, mk, var, fn, ZERO, ONE, TWO, PI
from .sym import *
from .sym import is_boolT

TABLE = []     # (regex, func)
EXACT = {}
def model(*rx):
    def deco(f):
        for r in rx: TABLE.append((re.compile(r), f))
        return f
    return deco
_cache = {}
def lookup(d, fn_):
    r = _cache.get(d, 0)
    if r == 0:
        r = None
        if not d.startswith("symb_anafis") and not ("symb_anafis" in d.split(" as ")[0] and d.startswith("<")):
            for rx, f in TABLE:
                if rx.search(d): r = f; break
        _cache[d] = r
    return r

def opt_ty(ex): return ex.prog.adts["std::option::Option"]
def some(ex, v, ty=None): return Adt(ty if ty is not None else opt_ty(ex)[0], 1, [v])
def none(ex, ty=None): return Adt(ty if ty is not None else opt_ty(ex)[0], 0, [])
def ok(ex, v): return Adt(ex.prog.adts["std::result::Result"][0], 0, [v])
def err(ex, v): return Adt(ex.prog.adts["std::result::Result"][0], 1, [v])
def ordering(ex, c):
    i = ex.prog.adts["std::cmp::Ordering"][0]
    for k, v in enumerate(ex.prog.types[i]["v"]):
        if v["n"] == {-1: "Less", 0: "Equal", 1: "Greater"}[c]: return Adt(i, k, [])
def field(ex, v, i):
    if isinstance(v, SymV):
        if i == 0: return IdV(v)
        if i == 1: return some(ex, StrSym(v))
    return None
def discr(ex, v): return None
def idop(ex, op, a, b):
    if op in ("Lt", "Le", "Gt", "Ge", "Cmp") and isinstance(a, (IdV, SymV)) and isinstance(b, (IdV, SymV)):
        sa, sb = (a if isinstance(a, SymV) else a.s), (b if isinstance(b, SymV) else b.s)
        if ex.sym_eq(sa, sb): c = 0
        else:
            m = ex.ghost.setdefault("symord", {}); k = (ex.sym_name(sa), ex.sym_name(sb))
            if k not in m:
                c = -1 if ex.choose(2, "symcmp") == 0 else 1
                m[k] = c; m[(k[1], k[0])] = -c
            c = m[k]
        return {"Lt": c < 0, "Le": c <= 0, "Gt": c > 0, "Ge": c >= 0}[op] if op != "Cmp" else ordering(ex, c)
    raise Unsupported("op on symbol id: " + op)
def ptr_add(ex, a, b): raise Unsupported("ptr add")
def fmod(ex, x, y):
    if tm.isnum(x) and tm.isnum(y) and y.a[0] != 0:
        q = abs(x.a[0]) % abs(y.a[0]); return num(q if x.a[0] >= 0 else -q)
    if tm.isnum(y) and y.a[0] != 0:
        p = ex.poly_of(x)
        if p is not None and all((v / y.a[0]).denominator == 1 for v in p.values()) and all(mono_int(ex, m) for m in p): return ZERO
    return fn("fmod", x, y)
def imod(ex, x, y):
    if tm.isnum(x) and tm.isnum(y):
        q = abs(x.a[0]) % abs(y.a[0]); return num(q if x.a[0] >= 0 else -q)
    if tm.isnum(y):
        c = y.a[0]
        p = ex.poly_of(x)
        if p is not None and all(v.denominator == 1 for v in p.values()) and all(mono_int(ex, m) for m in p):
            red = {m: v for m, v in p.items() if v % c != 0}
            if not red: return ZERO
            if set(red) == {()} and ex.sign_poly(p) in (1, 0.5): return num(red[()] % c)
    return mk("imod", x, y)
def mono_int(ex, m):
    for a, e in m:
        if not (isinstance(e, Fraction) and e.denominator == 1 and e >= 0): return False
        k = tm._alist[a]
        if k[0] != "var" or mk("var", k[1]) not in ex.ints: return False
    return True
def to_bits(ex, v): return mk("fn", "to_bits", v)

def S(ex, v):
    """string value"""
    v = ex.deref_all(v)
    if isinstance(v, SymV):
        n, _ = ex.sym_name(v); return n if n is not None else StrSym(v)
    if isinstance(v, StrSym):
        n, _ = ex.sym_name(v.s); return n if n is not None else v
    if isinstance(v, str): return v
    if isinstance(v, Opaque): return v
    raise Unsupported(f"string of {type(v).__name__}")
def vec(ex, v):
    v = ex.force(v)
    while isinstance(v, (Ptr, BoxV, ArcV)): v = ex.force(ex.load(v))
    return ex.need_vec(v)
def vptr(ex, p):
    """innermost Ptr to the vec (follow refs)"""
    p = ex.force(p)
    while True:
        v = ex.force(ex.get_path(p.c.v, p.p)) if isinstance(p, Ptr) else ex.force(p.c.v)
        if isinstance(v, (Ptr,)): p = v
        elif isinstance(v, (BoxV, ArcV)): p = Ptr(v.c)
        else: return p if isinstance(p, Ptr) else Ptr(p.c)
def elem_ptr(ex, p, i):
    if p.p and p.p[-1][0] == "sl": return Ptr(p.c, p.p[:-1] + (("i", p.p[-1][1] + i),))
    return Ptr(p.c, p.p + (("i", i),))
def fl(ex, v):
    v = ex.deref_all(v)
    return ex.nf(ex.num_of(v))

# ------------------------------------------------------------------ Arc / Box / refs
@model(r"^<std::(sync::Arc|rc::Rc|boxed::Box)<.*> as std::(ops::Deref|ops::DerefMut|convert::AsRef<.*>|borrow::Borrow<.*>)>::", r"^std::sync::Arc::<T, A>::as_ptr")
def _(ex, f, a):
    v = ex.force(ex.load(a[0]))
    if isinstance(v, (ArcV, BoxV)): return Ptr(v.c)
    return v
@model(r"^std::(sync::Arc|rc::Rc)::<T>::new$")
def _(ex, f, a): return ArcV(Cell(a[0]))
@model(r"^std::boxed::Box::<T>::new$")
def _(ex, f, a): return BoxV(Cell(a[0]))
@model(r"^<std::(sync::Arc|rc::Rc)<.*> as std::clone::Clone>::clone$")
def _(ex, f, a): return ex.force(ex.load(a[0]))
@model(r"^std::sync::Arc::<.*>::ptr_eq$", r"^std::ptr::eq$")
def _(ex, f, a):
    x, y = ex.force(ex.load(a[0])), ex.force(ex.load(a[1]))
    if not isinstance(x, ArcV): x, y = a[0], a[1]
    if not (hasattr(x, "c") and hasattr(y, "c")): return False
    if x.c is y.c and getattr(x, "p", ()) == getattr(y, "p", ()): return True
    sx, sy = raw_sym(ex, x), raw_sym(ex, y)
    if sx is not None and sx is sy: return True
    return False
def raw_sym(ex, x):
    v = x.c.v if not getattr(x, "p", ()) else None
    return v if isinstance(v, Sym) else None
@model(r"^std::sync::Arc::<.*>::try_unwrap$")
def _(ex, f, a):
    if ex.opts.get("fork_unwrap", True) and ex.choose(2, "try_unwrap") == 1: return err(ex, a[0])
    return ok(ex, a[0].c.v)
@model(r"^std::sync::Arc::<.*>::unwrap_or_clone$")
def _(ex, f, a): return a[0].c.v
@model(r"^std::sync::Arc::<.*>::(get_mut)$")
def _(ex, f, a): raise Unsupported("Arc::get_mut")
@model(r"^std::sync::Arc::<.*>::make_mut$")
def _(ex, f, a):
    v = ex.load(a[0]); n = ArcV(Cell(v.c.v)); ex.store(a[0], n); return Ptr(n.c)
@model(r"^std::boxed::Box::<T>::new_uninit$", r"^std::mem::MaybeUninit::<T>::uninit$")
def _(ex, f, a): return BoxV(Cell(UNINIT)) if "Box" in f["def"] else UNINIT
@model(r"box_assume_init_into_vec_unsafe")
def _(ex, f, a): return a[0].c.v
@model(r"^std::mem::drop$", r"^std::mem::forget$")
def _(ex, f, a): return UNIT
@model(r"^std::hint::must_use$", r"^std::hint::black_box$")
def _(ex, f, a): return a[0]
@model(r"^std::mem::replace$")
def _(ex, f, a):
    o = ex.load(a[0]); ex.store(a[0], a[1]); return o
@model(r"^std::mem::swap$", r"^std::ptr::swap$")
def _(ex, f, a):
    x, y = ex.load(a[0]), ex.load(a[1]); ex.store(a[0], y); ex.store(a[1], x); return UNIT
@model(r"^<&'?\w* ?(mut )?T as std::convert::AsRef<U>>::as_ref$")
def _(ex, f, a):
    v = ex.deref_all(a[0])
    if isinstance(v, (str, StrSym)): return v
    if isinstance(v, SymV): return S(ex, v)
    return ex.force(ex.load(a[0])) if isinstance(ex.force(ex.load(a[0])), Ptr) else a[0]
@model(r"^std::clone::impls::<impl std::clone::Clone for (&T|\w+)>::clone$", r"^<slotmap::DefaultKey as std::clone::Clone>::clone", r"^std::clone::Clone::clone$")
def _(ex, f, a):
    if not isinstance(ex.force(a[0]), Ptr): return a[0]
    return ex.load(a[0])
@model(r"^<T as std::convert::Into<U>>::into$", r"^<T as std::convert::From<T>>::from$")
def _(ex, f, a):
    if f["def"].endswith("::from"): return a[0]
    src, dst = f["args"][0], f["args"][1]
    if src == dst: return a[0]
    sn, dn = ex.prog.tname(src), ex.prog.tname(dst)
    for g in ex.prog.fns:
        if g["name"].endswith("::from") and "std::convert::From<" in g["name"]:
            b = g.get("body")
            if b and b["argc"] == 1 and b["locals"][0] == dst and b["locals"][1] == src: return ex.call(g["id"], a)
    if dn.startswith("std::string::String") or dn.startswith("std::borrow::Cow"): return S(ex, a[0])
    if dn.startswith("std::vec::Vec"): return vec(ex, a[0])
    if dn == "f8": return a[0]
    raise Unsupported(f"Into {sn} -> {dn}")
@model(r"^std::any::", r"^std::panicking::")
def _(ex, f, a): ex.panic(f["def"])

# ------------------------------------------------------------------ f64
UN = {"sin": "sin", "cos": "cos", "tan": "tan", "asin": "asin", "acos": "acos", "atan": "atan", "sinh": "sinh", "cosh": "cosh",
      "tanh": "tanh", "asinh": "asinh", "acosh": "acosh", "atanh": "atanh", "exp": "exp", "ln": "ln", "log10": "log10", "log2": "log2",
      "exp_m1": "expm1", "ln_1p": "log1p", "sqrt": "sqrt", "cbrt": "cbrt", "floor": "floor", "ceil": "ceil", "round": "round",
      "trunc": "trunc", "fract": "fract", "abs": "abs", "signum": "fsignum", "exp2": "exp2"}
def f_un(ex, n, x):
    if x is tm.NAN: return tm.NAN
    if n == "signum" and (ex.opts.get("signum_nonzero")): return fn("signum", x)
    if n in ("floor", "ceil", "round", "trunc", "fract"):
        if tm.isnum(x):
            q = x.a[0]
            if n == "floor": return num(q.__floor__())
            if n == "ceil": return num(q.__ceil__())
            if n == "trunc": return num(int(q))
            if n == "fract": return num(q - int(q))
            h = (abs(q) + Fraction(1, 2)).__floor__(); return num(h if q >= 0 else -h)
        if tm.numeric_const(x) if hasattr(tm, "numeric_const") else (not tm.free_vars(x) and not tm.special(x)):
            try:
                v = tm.neval(mk("fn", n, x), {})
                if n != "fract": return num(int(v))
            except tm.NumUndef: pass
        if ex.is_int(x): return ZERO if n == "fract" else x
    if n == "abs":
        if tm.isnum(x): return num(abs(x.a[0]))
        if x in (tm.INF, tm.NINF): return tm.INF
        if x.op == "neg": x = x.a[0]
        if x.op == "var" and x in ex.nn: return x
        if not tm.free_vars(x):
            try: return x if tm.neval(x, {}) >= 0 else tm.neg(x)
            except tm.NumUndef: pass
        d = ex.decide(ex.cmp("le", ZERO, x))
        if d is True: return x
        if d is False: return tm.neg(x)
    if n == "sqrt" and tm.isnum(x) and x.a[0] >= 0:
        r = isq(x.a[0])
        if r is not None: return num(r)
    if n == "cbrt" and tm.isnum(x):
        q = abs(x.a[0]); r = iroot(q, 3)
        if r is not None: return num(r if x.a[0] >= 0 else -r)
    if n == "exp2": return tm.powt(TWO, x)
    if n == "exp" and tm.isnum(x) and x.a[0] == 0: return ONE
    if n == "signum":
        if tm.isnum(x): return num(1 if x.a[0] >= 0 else -1)
        return fn("fsignum", x)
    return fn(UN[n], x)
def iroot(q, k):
    def r(n):
        x = round(n ** (1 / k)) if n < 10 ** 15 else None
        if x is None: return None
        for y in (x - 1, x, x + 1):
            if y >= 0 and y ** k == n: return y
        return None
    a, b = r(q.numerator), r(q.denominator)
    return Fraction(a, b) if a is not None and b is not None else None
def isq(q): return iroot(q, 2)

@model(r"^std::f64::<impl f64>::(\w+)$", r"^<f64 as num_traits::(Float|real::Real|Signed)>::(\w+)$")
def _(ex, f, a):
    n = f["def"].rsplit("::", 1)[1]
    if n in ("nan",): return tm.NAN
    if n in ("infinity",): return tm.INF
    if n == "neg_infinity": return tm.NINF
    if n == "epsilon": return num(Fraction(1, 2 ** 52))
    if n in ("max_value",): return tm.INF
    x = fl(ex, a[0])
    if n in UN: return f_un(ex, n, x)
    if n == "is_nan": return x is tm.NAN
    if n == "is_infinite": return x in (tm.INF, tm.NINF)
    if n == "is_finite": return not tm.special(x)
    if n in ("powf", "powi", "pow"):
        y = fl(ex, a[1]); return f_pow(ex, x, y)
    if n == "atan2": return fn("atan2", x, fl(ex, a[1]))
    if n == "log": return tm.div(fn("ln", x), fn("ln", fl(ex, a[1])))
    if n == "mul_add": 
        y, z = fl(ex, a[1]), fl(ex, a[2]); return ex.arith2("Add", ex.arith2("Mul", x, y, True), z, True)
    if n == "sin_cos": return Tup([fn("sin", x), fn("cos", x)])
    if n == "recip": return ex.arith2("Div", ONE, x, True)
    if n in ("max", "min"):
        y = fl(ex, a[1])
        c = ex.branch(ex.cmp("lt", x, y))
        return (y if c else x) if n == "max" else (x if c else y)
    if n == "to_bits": return to_bits(ex, x)
    if n == "hypot": return fn("sqrt", tm.add(tm.mul(x, x), tm.mul(fl(ex, a[1]), fl(ex, a[1]))))
    if n == "total_cmp": return f_cmp(ex, x, fl(ex, a[1]))
    if n == "clamp":
        lo, hi = fl(ex, a[1]), fl(ex, a[2])
        if ex.branch(ex.cmp("lt", x, lo)): return lo
        if ex.branch(ex.cmp("lt", hi, x)): return hi
        return x
    if n == "is_sign_negative":
        return ex.cmp("lt", x, ZERO)
    if n == "is_sign_positive": return bnot(ex.cmp("lt", x, ZERO))
    if n == "to_degrees": return tm.div(tm.mul(x, num(180)), PI)
    if n == "rem_euclid": 
        y = fl(ex, a[1]); return tm.sub(x, tm.mul(y, fn("floor", tm.div(x, y))))
    return NotImplemented
def f_pow(ex, x, y):
    if x is tm.NAN or y is tm.NAN: return tm.NAN
    if tm.isnum(x) and x.a[0] == 0 and tm.isnum(y) and y.a[0] < 0: return tm.INF
    if tm.isnum(x) and tm.isnum(y) and x.a[0] > 0 and y.a[0].denominator in (2, 3):
        r = iroot(x.a[0], y.a[0].denominator)
        if r is not None: return tm.powt(num(r), num(y.a[0].numerator))
    return tm.powt(x, y)
def f_cmp(ex, x, y):
    if ex.branch(ex.cmp("lt", x, y)): return ordering(ex, -1)
    if ex.branch(ex.cmp("eq", x, y)): return ordering(ex, 0)
    return ordering(ex, 1)
@model(r"^<&?f64 as std::ops::(Add|Sub|Mul|Div|Rem)(<.*>)?>::\w+$", r"^<&?(i32|i64|u32|u64|usize) as std::ops::(Add|Sub|Mul|Div|Rem)(<.*>)?>::\w+$")
def _(ex, f, a):
    op = re.search(r"ops::(\w+)", f["def"]).group(1)
    isf = "f64" in f["def"][:8]
    x, y = ex.deref_all(a[0]), ex.deref_all(a[1])
    if isf: return ex.arith2(op, ex.nf(ex.num_of(x)), ex.nf(ex.num_of(y)), True)
    return ex.binop(op, x, y, None)
@model(r"^<&?f64 as std::ops::Neg>::neg$")
def _(ex, f, a): return tm.neg(fl(ex, a[0]))
@model(r"^<f64 as std::ops::(Add|Sub|Mul|Div)Assign(<.*>)?>::\w+$")
def _(ex, f, a):
    op = re.search(r"ops::(\w+)Assign", f["def"]).group(1)
    ex.store(a[0], ex.arith2(op, fl(ex, a[0]), fl(ex, a[1]), True)); return UNIT
@model(r"^<f64 as num_traits::(Zero|One)>::(zero|one)$")
def _(ex, f, a): return ZERO if f["def"].endswith("zero") else ONE
@model(r"^<f64 as num_traits::Zero>::is_zero")
def _(ex, f, a): return ex.cmp("eq", fl(ex, a[0]), ZERO)
FC = {"PI": PI, "E": tm.E1, "FRAC_2_PI": tm.div(TWO, PI), "FRAC_PI_2": tm.div(PI, TWO), "FRAC_1_PI": tm.div(ONE, PI), "FRAC_2_SQRT_PI": tm.div(TWO, tm.sqrt(PI)),
      "LN_2": fn("ln", TWO), "LN_10": fn("ln", num(10)), "SQRT_2": tm.sqrt(TWO), "FRAC_PI_4": tm.div(PI, num(4)), "TAU": tm.mul(TWO, PI),
      "FRAC_PI_3": tm.div(PI, num(3)), "FRAC_PI_6": tm.div(PI, num(6)), "LOG2_E": tm.div(ONE, fn("ln", TWO)), "LOG10_E": tm.div(ONE, fn("ln", num(10)))}
@model(r"^<f64 as num_traits::FloatConst>::(\w+)$")
def _(ex, f, a):
    n = f["def"].rsplit("::", 1)[1]
    return FC.get(n, NotImplemented)
@model(r"^<f64 as num_traits::(NumCast)>::from$", r"^<f64 as num_traits::FromPrimitive>::from_\w+$")
def _(ex, f, a): return some(ex, ex.num_of(a[0]))
@model(r"^<f64 as num_traits::ToPrimitive>::to_(\w+)$", r"^<\w+ as num_traits::ToPrimitive>::to_(f64)$")
def _(ex, f, a):
    x = fl(ex, a[0]); n = f["def"].rsplit("_", 1)[1]
    if n == "f64": return some(ex, x)
    return NotImplemented
@model(r"^<&?(f64|i32|usize|u64|bool|i64|u32) as std::default::Default>::default$")
def _(ex, f, a): return ZERO if "f64" in f["def"] else (False if "bool" in f["def"] else 0)
@model(r"^std::convert::num::<impl std::convert::From<\w+> for (\w+)>::from$")
def _(ex, f, a):
    if "for f64" in f["def"]: return ex.num_of(a[0])
    return a[0]
@model(r"^std::convert::num::.*TryFrom<(\w+)> for (\w+)>::try_from$")
def _(ex, f, a):
    m = re.search(r"TryFrom<(\w+)> for (\w+)>", f["def"]); dst = m.group(2)
    v = ex.deref_all(a[0])
    rng = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1)}[dst]
    if isinstance(v, int): return ok(ex, v) if rng[0] <= v <= rng[1] else err(ex, Opaque("TryFromInt"))
    if rng[0] == 0 and ex.branch(ex.cmp("lt", ex.nf(v), ZERO)): return err(ex, Opaque("TryFromInt"))
    if dst == "i32" and m.group(1) == "u32":
        if ex.branch(ex.cmp("lt", num((1 << 31) - 1), ex.nf(v))): return err(ex, Opaque("TryFromInt"))
        return ok(ex, v)
    ex.notes.add("machine-int")
    if isinstance(v, T) and rng[0] == 0 and v.op == "var": ex.nn.add(v)
    return ok(ex, v)
# comparisons on references etc. are MIR bodies; primitives:
@model(r"^std::cmp::impls::<impl std::cmp::(PartialOrd|Ord|PartialEq) for (\w+)>::(\w+)$")
def _(ex, f, a):
    n = f["def"].rsplit("::", 1)[1]
    x, y = ex.deref_all(a[0]), ex.deref_all(a[1])
    if n in ("eq", "ne", "lt", "le", "gt", "ge"):
        if isinstance(x, Tup) and isinstance(y, Tup): return n in ("eq", "le", "ge")
        return ex.binop({"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[n], x, y, None)
    if n in ("cmp", "partial_cmp"):
        if isinstance(x, (bool,)) or isinstance(y, bool): x, y = ex.branch(x), ex.branch(y)
        if isinstance(x, int) and isinstance(y, int): r = ordering(ex, -1 if x < y else 1 if x > y else 0)
        elif isinstance(x, (IdV, SymV)): return NotImplemented
        else: r = f_cmp(ex, ex.nf(ex.num_of(x)), ex.nf(ex.num_of(y)))
        return some(ex, r) if n == "partial_cmp" else r
    if n in ("max", "min"):
        c = ex.branch(ex.binop("Lt", x, y, None)); return (y if c else x) if n == "max" else (x if c else y)
    return NotImplemented
@model(r"^std::cmp::(max|min)$", r"^std::cmp::Ord::(max|min)$")
def _(ex, f, a):
    c = ex.branch(ex.binop("Lt", a[0], a[1], None)); return (a[1] if c else a[0]) if f["def"].endswith("max") else (a[0] if c else a[1])
@model(r"^std::num::<impl (\w+)>::to_(le|be|ne)_bytes$")
def _(ex, f, a): return VecV([Opaque("byte")] * 8)
@model(r"^std::num::<impl (\w+)>::(\w+)$")
def _(ex, f, a):
    m = re.search(r"<impl (\w+)>::(\w+)$", f["def"]); ty, n = m.groups()
    w = {"8": 8, "6": 16, "2": 32, "4": 64, "e": 64}.get(ty[-1], 64)
    if ty.endswith("128"): w = 128
    sg = ty[0] == "i"
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    x = ex.deref_all(a[0]); y = ex.deref_all(a[1]) if len(a) > 1 else None
    conc = isinstance(x, int) and (y is None or isinstance(y, int))
    base = n.split("_", 1)[1] if "_" in n else n
    ops = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}
    def op(o):
        if conc: return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y}[o]()
        return ex.toint(ex.arith2(o, ex.nf(ex.num_of(x)), ex.nf(ex.num_of(y)), False), False)
    if n.startswith("wrapping_") and base in ops:
        if isinstance(x, T) and x.op in ("hash", "bit") or isinstance(y, T) and y.op in ("hash", "bit"):
            return mk("hash", n, ex.num_of(x), ex.num_of(y))
        r = op(ops[base])
        if conc:
            r &= (1 << w) - 1
            if sg and r >> (w - 1): r -= 1 << w
        else: ex.notes.add("machine-int")
        return r
    if n == "saturating_add_signed":
        r = op("Add")
        if conc: return max(lo, min(hi, r))
        if ex.branch(ex.cmp("lt", ex.nf(ex.num_of(r)), ZERO)): return 0
        ex.notes.add("machine-int"); return r
    if n.startswith("saturating_") and base in ops:
        r = op(ops[base])
        if conc: return max(lo, min(hi, r))
        if base == "sub" and not sg:
            return 0 if ex.branch(ex.cmp("lt", ex.nf(ex.num_of(x)), ex.nf(ex.num_of(y)))) else r
        ex.notes.add("machine-int"); return r
    if n.startswith("checked_") and base in ("add", "sub", "mul"):
        r = op(ops[base])
        if conc: return some(ex, r) if lo <= r <= hi else none(ex)
        if not sg and base == "sub":
            return none(ex) if ex.branch(ex.cmp("lt", ex.nf(ex.num_of(x)), ex.nf(ex.num_of(y)))) else some(ex, r)
        ex.notes.add("machine-int"); return some(ex, r)
    if n == "checked_div" or n == "checked_rem":
        if conc:
            if y == 0: return none(ex)
            return some(ex, ex.int2("Div" if n == "checked_div" else "Rem", x, y, {"k": "int" if sg else "uint", "w": w // 8}))
    if n in ("abs", "unsigned_abs", "wrapping_abs"):
        if isinstance(x, int): return abs(x)
        t = ex.nf(ex.num_of(x))
        r = f_un(ex, "abs", t)
        if r.op == "fn":
            if ex.branch(ex.cmp("lt", t, ZERO)): return tm.neg(ex.nf(t))
            return ex.nf(t)
        return r
    if n == "rem_euclid" and conc and y: return x % abs(y)
    if n in ("pow",) and conc: return x ** y
    if n == "is_multiple_of":
        if conc: return x % y == 0 if y else x == 0
        return ex.cmp("eq", ex.num_of(imod(ex, ex.nf(ex.num_of(x)), ex.nf(ex.num_of(y)))), ZERO)
    if n == "div_ceil" and conc: return -(-x // y)
    if n == "next_power_of_two" and conc: return 1 if x <= 1 else 1 << (x - 1).bit_length()
    if n == "signum" and conc: return (x > 0) - (x < 0)
    if n == "is_power_of_two" and conc: return x > 0 and x & (x - 1) == 0
    if n == "rotate_left" and conc: return ((x << y) | (x >> (w - y))) & ((1 << w) - 1)
    if n == "trailing_zeros" and conc: return (x & -x).bit_length() - 1 if x else w
    if n == "leading_zeros" and conc: return w - x.bit_length()
    if n == "count_ones" and conc: return bin(x).count("1")
    if n == "is_ascii_digit": return isinstance(x, int) and 48 <= x <= 57
    return NotImplemented
@model(r"^std::bool::<impl bool>::then")
def _(ex, f, a):
    if ex.branch(a[0]): return some(ex, ex.invoke(a[1], []) if f["def"].endswith("then") else a[1])
    return none(ex)

# ------------------------------------------------------------------ Vec / slices
@model(r"^std::vec::Vec::<T(, A)?>::(new|with_capacity)$", r"^<std::vec::Vec<T> as std::default::Default>::default", r"^<std::boxed::Box<\[T\]> as std::default::Default>::default")
def _(ex, f, a): return VecV(())
@model(r"^std::vec::Vec::<T, A>::push$")
def _(ex, f, a):
    v = vec(ex, a[0]); ex.store(vptr(ex, a[0]), VecV(v.e + (a[1],))); return UNIT
@model(r"^std::vec::Vec::<T, A>::pop$")
def _(ex, f, a):
    v = vec(ex, a[0])
    if not v.e: return none(ex)
    ex.store(vptr(ex, a[0]), VecV(v.e[:-1])); return some(ex, v.e[-1])
@model(r"^std::vec::Vec::<T, A>::(insert)$")
def _(ex, f, a):
    v = vec(ex, a[0]); i = ex.as_index(a[1])
    if i > len(v.e): ex.panic("insert")
    ex.store(vptr(ex, a[0]), VecV(v.e[:i] + (a[2],) + v.e[i:])); return UNIT
@model(r"^std::vec::Vec::<T, A>::(remove|swap_remove)$")
def _(ex, f, a):
    v = vec(ex, a[0]); i = ex.as_index(a[1])
    if i >= len(v.e): ex.panic("remove")
    if "swap_remove" in f["def"]:
        l = list(v.e); x = l[i]; l[i] = l[-1]; l.pop(); ex.store(vptr(ex, a[0]), VecV(l)); return x
    ex.store(vptr(ex, a[0]), VecV(v.e[:i] + v.e[i + 1:])); return v.e[i]
@model(r"^std::vec::Vec::<T, A>::(truncate)$")
def _(ex, f, a):
    v = vec(ex, a[0]); ex.store(vptr(ex, a[0]), VecV(v.e[:ex.as_index(a[1])])); return UNIT
@model(r"^std::vec::Vec::<T, A>::clear$")
def _(ex, f, a): ex.store(vptr(ex, a[0]), VecV(())); return UNIT
@model(r"^std::vec::Vec::<T, A>::(reserve|shrink_to_fit|reserve_exact)$")
def _(ex, f, a): return UNIT
@model(r"^std::vec::Vec::<T, A>::(resize)$")
def _(ex, f, a):
    v = vec(ex, a[0]); n = ex.as_index(a[1])
    ex.store(vptr(ex, a[0]), VecV(v.e[:n] + (a[2],) * (n - len(v.e)))); return UNIT
@model(r"^std::vec::Vec::<T, A>::(append)$")
def _(ex, f, a):
    v, w = vec(ex, a[0]), vec(ex, a[1]); ex.store(vptr(ex, a[0]), VecV(v.e + w.e)); ex.store(vptr(ex, a[1]), VecV(())); return UNIT
@model(r"^std::vec::Vec::<T, A>::(drain)$")
def _(ex, f, a):
    v = vec(ex, a[0]); lo, hi = range_bounds(ex, a[1], len(v.e))
    ex.store(vptr(ex, a[0]), VecV(v.e[:lo] + v.e[hi:])); return ListIter(v.e[lo:hi])
@model(r"^std::vec::Vec::<T, A>::retain$")
def _(ex, f, a):
    v = vec(ex, a[0]); out = []
    for x in v.e:
        if ex.branch(ex.invoke(a[1], [Ptr(Cell(x))])): out.append(x)
    ex.store(vptr(ex, a[0]), VecV(out)); return UNIT
@model(r"^std::vec::Vec::<T, A>::dedup")
def _(ex, f, a): raise Unsupported("dedup")
@model(r"^std::vec::from_elem$")
def _(ex, f, a): return VecV((a[0],) * ex.as_index(a[1]))
@model(r"^std::vec::Vec::<T, A>::(into_boxed_slice|as_slice|as_mut_slice)$", r"^std::slice::<impl \[T\]>::(into_vec)$", r"^<std::vec::Vec<T, A> as std::(ops::Deref|ops::DerefMut|convert::AsRef<\[T\]>|borrow::Borrow<\[T\]>)>::\w+$")
def _(ex, f, a):
    n = f["def"].rsplit("::", 1)[1]
    if n in ("into_boxed_slice", "into_vec"): return a[0]
    return vptr(ex, a[0])
@model(r"^std::slice::<impl \[T\]>::to_vec$", r"^std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned", r"^<std::vec::Vec<T, A> as std::clone::Clone>::clone$", r"^<std::boxed::Box<\[T\], A> as std::clone::Clone>::clone$", r"^<std::vec::Vec<T> as std::convert::From<", r"^<std::vec::Vec<T, A> as std::convert::From<")
def _(ex, f, a): return vec(ex, a[0])
@model(r"^<std::vec::Vec<T, A> as std::clone::Clone>::clone_from$")
def _(ex, f, a): ex.store(vptr(ex, a[0]), vec(ex, a[1])); return UNIT
@model(r"^std::vec::Vec::<T, A>::(len|is_empty)$", r"^std::slice::<impl \[T\]>::(len|is_empty)$")
def _(ex, f, a):
    n = f["def"].rsplit("::", 1)[1]
    v = ex.deref_all(a[0])
    if isinstance(v, Sym) and n == "is_empty":
        lo, hi = ex.ghost.get(("veclen", v.id), (0, ex.arity))
        if lo > 0: return False
    l = ex.vec_len(v)
    if n == "len": return l
    return l == 0 if isinstance(l, int) else False
def range_bounds(ex, r, n):
    r = ex.deref_all(r)
    if isinstance(r, Adt):
        nm = ex.prog.types[r.ty]["n"]
        f = [ex.force(x) for x in r.f]
        if nm.endswith("RangeInclusive"): lo, hi = ex.as_index(f[0]), ex.as_index(f[1]) + 1
        elif nm.endswith("RangeFrom"): lo, hi = ex.as_index(f[0]), n
        elif nm.endswith("RangeToInclusive"): lo, hi = 0, ex.as_index(f[0]) + 1
        elif nm.endswith("RangeTo"): lo, hi = 0, ex.as_index(f[0])
        elif nm.endswith("RangeFull"): lo, hi = 0, n
        else: lo, hi = ex.as_index(f[0]), ex.as_index(f[1])
        return lo, hi
    raise Unsupported("range")
def index(ex, p, i):
    p = vptr(ex, p); i = ex.deref_all(i)
    rg = ex.force(ex.load(p))
    if isinstance(rg, Region):
        if not isinstance(i, (int, T)): raise Unsupported("range of a region")
        if not ex.uniq.get("unchecked") and rg.len is not None:
            if not ex.branch(ex.cmp("lt", ex.nf(ex.num_of(i)), ex.nf(ex.num_of(rg.len)))): ex.panic("index")
        return Ptr(p.c, p.p + (("ri", i),))
    n = len(vec(ex, p).e)
    if isinstance(i, (int, T)) and not isinstance(i, bool):
        k = ex.as_index(i)
        if not (0 <= k < n): ex.panic(f"index {k} of {n}")
        return elem_ptr(ex, p, k)
    lo, hi = range_bounds(ex, i, n)
    if not (0 <= lo <= hi <= n): ex.panic("slice range")
    return sub_ptr(p, lo, hi)
def sub_ptr(p, lo, hi):
    if p.p and p.p[-1][0] == "sl": return Ptr(p.c, p.p[:-1] + (("sl", p.p[-1][1] + lo, p.p[-1][1] + hi),))
    return Ptr(p.c, p.p + (("sl", lo, hi),))
@model(r"^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$", r"^std::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$", r"^std::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index")
def _(ex, f, a): return index(ex, a[0], a[1])
@model(r"^std::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)$")
def _(ex, f, a): 
    ex.uniq["unchecked"] = 1
    try: return index(ex, a[0], a[1])
    finally: ex.uniq["unchecked"] = 0
@model(r"^std::slice::<impl \[T\]>::(get|get_mut)$")
def _(ex, f, a):
    i = ex.deref_all(a[1]); p = vptr(ex, a[0]); n = len(vec(ex, p).e)
    if isinstance(i, (int, T)):
        k = ex.as_index(i)
        return some(ex, elem_ptr(ex, p, k)) if 0 <= k < n else none(ex)
    lo, hi = range_bounds(ex, i, n)
    return some(ex, sub_ptr(p, lo, hi)) if 0 <= lo <= hi <= n else none(ex)
@model(r"^std::slice::<impl \[T\]>::(first|last|first_mut|last_mut)$")
def _(ex, f, a):
    p = vptr(ex, a[0]); n = len(vec(ex, p).e)
    if not n: return none(ex)
    return some(ex, elem_ptr(ex, p, 0 if "first" in f["def"] else n - 1))
@model(r"^std::slice::<impl \[T\]>::(split_first|split_last)$")
def _(ex, f, a):
    p = vptr(ex, a[0]); n = len(vec(ex, p).e)
    if not n: return none(ex)
    if "first" in f["def"]: return some(ex, Tup([elem_ptr(ex, p, 0), sub_ptr(p, 1, n)]))
    return some(ex, Tup([elem_ptr(ex, p, n - 1), sub_ptr(p, 0, n - 1)]))
@model(r"^std::slice::<impl \[T\]>::split_at(_mut)?$")
def _(ex, f, a):
    p = vptr(ex, a[0]); n = len(vec(ex, p).e); k = ex.as_index(a[1])
    if k > n: ex.panic("split_at")
    return Tup([sub_ptr(p, 0, k), sub_ptr(p, k, n)])
@model(r"^std::slice::<impl \[T\]>::swap$")
def _(ex, f, a):
    p = vptr(ex, a[0]); l = list(vec(ex, p).e); i, j = ex.as_index(a[1]), ex.as_index(a[2]); l[i], l[j] = l[j], l[i]
    ex.store(p, VecV(l)); return UNIT
@model(r"^std::slice::<impl \[T\]>::reverse$")
def _(ex, f, a):
    p = vptr(ex, a[0]); ex.store(p, VecV(vec(ex, p).e[::-1])); return UNIT
@model(r"^std::slice::<impl \[T\]>::fill$")
def _(ex, f, a):
    p = vptr(ex, a[0]); ex.store(p, VecV((a[1],) * len(vec(ex, p).e))); return UNIT
@model(r"^std::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$")
def _(ex, f, a):
    p = vptr(ex, a[0]); s = vec(ex, a[1])
    if len(s.e) != len(vec(ex, p).e): ex.panic("copy_from_slice")
    ex.store(p, s); return UNIT
@model(r"^std::slice::<impl \[T\]>::(contains)$")
def _(ex, f, a):
    v = vec(ex, a[0]); x = ex.deref_all(a[1])
    for e in v.e:
        if ex.branch(eqv(ex, e, x)): return True
    return False
@model(r"^std::slice::<impl \[T\]>::(sort_unstable_by|sort_by|sort_by_key|sort_unstable_by_key|sort|sort_unstable|sort_by_cached_key)$")
def _(ex, f, a):
    n = f["def"].rsplit("::", 1)[1]
    p = vptr(ex, a[0]); l = list(vec(ex, p).e)
    if len(l) < 2: return UNIT
    h = ex.opts.get("sort")
    if h:
        r = h(ex, f, l, a)
        if r is not None: ex.store(p, VecV(r)); return UNIT
    # insertion sort with the real comparator
    import functools
    out = []
    for x in l:
        i = len(out)
        while i > 0:
            y = out[i - 1]
            if n.endswith("by_key") or n.endswith("cached_key"):
                c = cmpv(ex, ex.invoke(a[1], [Ptr(Cell(y))]), ex.invoke(a[1], [Ptr(Cell(x))]))
            elif n.endswith("_by"):
                c = ordv(ex, ex.invoke(a[1], [Ptr(Cell(y)), Ptr(Cell(x))]))
            else: c = cmpv(ex, y, x)
            if c > 0: i -= 1
            else: break
        out.insert(i, x)
    ex.store(p, VecV(out)); return UNIT
def ordv(ex, o):
    o = ex.need_adt(o); d = ex.prog.types[o.ty]["v"][o.var]["n"]
    return {"Less": -1, "Equal": 0, "Greater": 1}[d]
def cmpv(ex, x, y):
    x, y = ex.deref_all(x), ex.deref_all(y)
    if isinstance(x, Tup):
        for p, q in zip(x.f, y.f):
            c = cmpv(ex, p, q)
            if c: return c
        return 0
    if isinstance(x, str) and isinstance(y, str): return (x > y) - (x < y)
    if isinstance(x, int) and isinstance(y, int): return (x > y) - (x < y)
    if isinstance(x, (T, int)): return ordv(ex, f_cmp(ex, ex.nf(ex.num_of(x)), ex.nf(ex.num_of(y))))
    if isinstance(x, (SymV, IdV)): return 0 if ex.sym_eq(x if isinstance(x, SymV) else x.s, y if isinstance(y, SymV) else y.s) else (-1 if ex.choose(2, "symcmp") == 0 else 1)
    if isinstance(x, Adt): 
        g = find_impl(ex, "std::cmp::Ord", "cmp", x.ty)
        if g: return ordv(ex, ex.call(g["id"], [Ptr(Cell(x)), Ptr(Cell(y))]))
    raise Unsupported(f"cmp {type(x).__name__}")
def find_impl(ex, trait, meth, ty):
    n = ex.prog.tname(ty)
    return ex.prog.byname.get(f"<{n} as {trait}>::{meth}")
@model(r"^std::slice::<impl \[T\]>::binary_search_by_key$")
def _(ex, f, a):
    v = vec(ex, a[0]); key = ex.deref_all(a[1])
    for i, x in enumerate(v.e):
        k = ex.deref_all(ex.invoke(a[2], [Ptr(Cell(x))]))
        if ex.branch(eqv(ex, k, key)): return ok(ex, i)
        if ex.branch(ex.binop("Lt", key, k, None)): return err(ex, i)
    return err(ex, len(v.e))
@model(r"^std::slice::<impl \[T\]>::windows$")
def _(ex, f, a):
    p = vptr(ex, a[0]); n = len(vec(ex, p).e); k = ex.as_index(a[1])
    return ListIter([sub_ptr(p, i, i + k) for i in range(0, n - k + 1)])
@model(r"^std::slice::<impl \[T\]>::(chunks|chunks_exact)$")
def _(ex, f, a):
    p = vptr(ex, a[0]); n = len(vec(ex, p).e); k = ex.as_index(a[1])
    return ListIter([sub_ptr(p, i, min(i + k, n)) for i in range(0, n, k) if i + k <= n or "exact" not in f["def"]])
@model(r"^<std::vec::Vec<T, A> as std::iter::Extend<", r"^std::vec::Vec::<T, A>::extend_from_slice$")
def _(ex, f, a):
    p = vptr(ex, a[0])
    items = to_iter(ex, a[1]).rest()
    if "extend_from_slice" in f["def"] or "Extend<&" in f["def"]: items = [ex.load(x) if isinstance(x, Ptr) else x for x in items]
    ex.store(p, VecV(vec(ex, p).e + tuple(items))); return UNIT
@model(r"^std::vec::partial_eq::", r"^std::slice::cmp::", r"^std::array::equality::")
def _(ex, f, a):
    x, y = vec(ex, a[0]), vec(ex, a[1])
    r = eqvec(ex, x, y)
    return r if f["def"].endswith("eq") else bnot(r)
def eqvec(ex, x, y):
    if len(x.e) != len(y.e): return False
    for p, q in zip(x.e, y.e):
        if not ex.branch(eqv(ex, p, q)): return False
    return True
def eqv(ex, x, y):
    """structural equality of two values -> bool or bool term"""
    x, y = ex.deref_all(x), ex.deref_all(y)
    h = ex.opts.get("eq")
    if h:
        r = h(ex, x, y)
        if r is not None: return r
    if isinstance(x, (SymV, IdV)) and isinstance(y, (SymV, IdV)): return ex.binop("Eq", x, y, None)
    if isinstance(x, (str, StrSym)) or isinstance(y, (str, StrSym)): return str_eq(ex, x, y)
    if isinstance(x, (int, T)) and isinstance(y, (int, T)): return ex.binop("Eq", x, y, None)
    if isinstance(x, Tup) and isinstance(y, Tup):
        for p, q in zip(x.f, y.f):
            if not ex.branch(eqv(ex, p, q)): return False
        return True
    if isinstance(x, (VecV,)) or isinstance(y, VecV): return eqvec(ex, ex.need_vec(x), ex.need_vec(y))
    if isinstance(x, (Adt, Sym)) and isinstance(y, (Adt, Sym)):
        g = find_impl(ex, "std::cmp::PartialEq", "eq", x.ty)
        if g is not None: return ex.call(g["id"], [Ptr(Cell(x)), Ptr(Cell(y))])
        x, y = ex.need_adt(x), ex.need_adt(y)
        if x.var != y.var: return False
        for p, q in zip(x.f, y.f):
            if not ex.branch(eqv(ex, p, q)): return False
        return True
    if isinstance(x, FnItem) and isinstance(y, FnItem): return x.fid == y.fid
    raise Unsupported(f"eq {type(x).__name__} {type(y).__name__}")
@model(r"^<std::sync::Arc<T, A> as std::cmp::PartialEq>::(eq|ne)$", r"^<std::boxed::Box<T, A> as std::cmp::PartialEq>::(eq|ne)$")
def _(ex, f, a):
    x, y = ex.force(ex.load(a[0])), ex.force(ex.load(a[1]))
    if isinstance(x, ArcV) and isinstance(y, ArcV) and x.c is y.c: return f["def"].endswith("eq")
    r = eqv(ex, x, y)
    return r if f["def"].endswith("eq") else bnot(r)
@model(r"^std::tuple::<impl std::cmp::PartialEq for")
def _(ex, f, a): return eqv(ex, a[0], a[1])
@model(r"^<slotmap::DefaultKey as std::cmp::PartialEq>::eq$")
def _(ex, f, a): return eqv(ex, a[0], a[1])
@model(r"^<slotmap::DefaultKey as slotmap::Key>::data$", r"^slotmap::KeyData::as_ffi$", r"^slotmap::KeyData::from_ffi$", r"^<slotmap::DefaultKey as std::convert::From<slotmap::KeyData>>::from$", r"^<slotmap::KeyData as std::convert::Into<")
def _(ex, f, a):
    v = ex.deref_all(a[0]); return v
@model(r"^std::cmp::PartialEq::ne$")
def _(ex, f, a): return bnot(eqv(ex, a[0], a[1]))
@model(r"^<std::option::Option<T> as std::cmp::PartialEq>::(eq|ne)$")
def _(ex, f, a):
    x, y = ex.need_adt(ex.deref_all(a[0])), ex.need_adt(ex.deref_all(a[1]))
    if x.var != y.var: r = False
    elif not x.f: r = True
    else: r = eqv(ex, x.f[0], y.f[0])
    return r if f["def"].endswith("eq") else bnot(r)

# ------------------------------------------------------------------ iterators
def to_iter(ex, v):
    v = ex.force(v)
    if isinstance(v, IterV): return v
    if isinstance(v, VecV): return ListIter(v.e)
    if isinstance(v, MapV): return ListIter([Tup(kv) if kv[1] is not UNIT else kv[0] for kv in v.kv])
    if isinstance(v, Sym) and ex.prog.types[v.ty]["k"] == "adt" and ex.prog.types[v.ty]["n"].endswith("Vec"): return ListIter(ex.need_vec(v).e)
    if isinstance(v, Adt):
        n = ex.prog.types[v.ty]["n"]
        if n in ("std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom"): return RangeIter(ex, v)
        if n == "std::option::Option": return ListIter(v.f)
    if isinstance(v, (Ptr, BoxV, ArcV)):
        x = ex.force(ex.load(v))
        if isinstance(x, IterV): return x
        if isinstance(x, MapV):
            return ListIter([Tup([Ptr(Cell(k)), Ptr(v.c, v.p + (("mapv", k),))]) if w is not UNIT else Ptr(Cell(k)) for k, w in x.kv]) if False else ListIter([Tup([Ptr(Cell(k)), Ptr(Cell(w))]) if w is not UNIT else Ptr(Cell(k)) for k, w in x.kv])
        if isinstance(x, Adt) and ex.prog.types[x.ty]["n"] == "std::option::Option":
            return ListIter([Ptr(v.c, v.p + (("f", 0),))] if x.f else [])
        if isinstance(x, Adt) and ex.prog.types[x.ty]["n"] == "std::ops::Range": return RangeIter(ex, x, v)
        p = vptr(ex, v if isinstance(v, Ptr) else Ptr(v.c)); n = len(vec(ex, p).e)
        return ListIter([elem_ptr(ex, p, i) for i in range(n)])
    raise Unsupported(f"iter over {type(v).__name__}")
class RangeIter(IterV):
    def __init__(self, ex, r, ptr=None):
        self.ex = ex; self.ptr = ptr
        n = ex.prog.types[r.ty]["n"]
        self.a = ex.force(r.f[0]); self.b = None if n.endswith("RangeFrom") else ex.force(r.f[1])
        self.incl = n.endswith("Inclusive"); self.done = False
    def nxt(self):
        ex = self.ex
        if self.done: return STOP
        if self.b is not None:
            lt = ex.binop("Le" if self.incl else "Lt", self.a, self.b, None)
            if not ex.branch(lt, "range"): self.done = True; return STOP
        x = self.a
        self.a = ex.toint(ex.arith2("Add", ex.num_of(x), ONE, False), False) if not isinstance(x, int) else x + 1
        return x
    def back(self):
        ex = self.ex
        if self.done: return STOP
        if not ex.branch(ex.binop("Le" if self.incl else "Lt", self.a, self.b, None), "range"): self.done = True; return STOP
        y = self.b if self.incl else (self.b - 1 if isinstance(self.b, int) else ex.toint(ex.arith2("Sub", ex.num_of(self.b), ONE, False), False))
        self.b = (y - 1 if isinstance(y, int) else ex.toint(ex.arith2("Sub", ex.num_of(y), ONE, False), False)) if self.incl else y
        return y
    def clone(self):
        r = RangeIter.__new__(RangeIter); r.__dict__.update(self.__dict__); return r
def wrap_opt(ex, x): return none(ex) if x is STOP else some(ex, x)
@model(r"^std::ops::RangeInclusive::<Idx>::new$")
def _(ex, f, a):
    i = [k for k in ex.prog.adts["std::ops::RangeInclusive"]]
    return Adt(i[0], 0, [a[0], a[1], False])
@model(r"^std::ops::RangeInclusive::<Idx>::(contains|start|end)$", r"^std::ops::Range(From|To)?::<Idx>::contains$")
def _(ex, f, a):
    r = ex.deref_all(a[0]); n = f["def"].rsplit("::", 1)[1]
    if n == "start": return Ptr(Cell(r.f[0]))
    if n == "end": return Ptr(Cell(r.f[1]))
    x = ex.deref_all(a[1]); inc = "Inclusive" in f["def"]
    tn = ex.prog.types[r.ty]["n"]
    if tn.endswith("RangeFrom"): return ex.binop("Ge", x, r.f[0], None)
    return band(ex.binop("Ge", x, r.f[0], None), ex.binop("Le" if inc else "Lt", x, r.f[1], None))
@model(r"::into_iter$", r"^std::slice::<impl \[T\]>::(iter|iter_mut)$", r"^std::collections::Hash(Map|Set)::<.*>::(iter|iter_mut|drain)$", r"^std::option::Option::<T>::iter$", r"IntoParallelRefIterator<.*>>::par_iter$")
def _(ex, f, a): return to_iter(ex, a[0])
@model(r"as std::iter::Iterator>::next$", r"^std::iter::range::<impl std::iter::Iterator for .*>::next$", r"^std::iter::Iterator::next$")
def _(ex, f, a):
    v = ex.force(ex.load(a[0]))
    if isinstance(v, Adt): v = RangeIter(ex, v); ex.store(a[0], v)
    if isinstance(v, Ptr): return _next(ex, v)
    return wrap_opt(ex, v.nxt())
def _next(ex, p):
    v = ex.force(ex.load(p))
    if isinstance(v, Ptr): return _next(ex, v)
    if isinstance(v, Adt): v = RangeIter(ex, v); ex.store(p, v)
    return wrap_opt(ex, v.nxt())
@model(r"DoubleEndedIterator>::next_back$", r"DoubleEndedIterator for .*>::next_back$")
def _(ex, f, a): return wrap_opt(ex, ex.force(ex.load(a[0])).back())
@model(r"^std::iter::Peekable::<I>::(peek|next_if|next_if_eq)$")
def _(ex, f, a):
    n = f["def"].rsplit("::", 1)[1]
    it = ex.force(ex.load(a[0])); b = it.peek()
    if n == "peek": return none(ex) if b.v is STOP else some(ex, Ptr(b))
    if b.v is STOP: return none(ex)
    c = ex.invoke(a[1], [Ptr(b)]) if n == "next_if" else eqv(ex, b.v, a[1])
    if ex.branch(c): return wrap_opt(ex, it.nxt())
    return none(ex)
class FilterIter(IterV):
    def __init__(self, ex, it, f): self.ex = ex; self.it = it; self.f = f
    def _s(self, m):
        while True:
            x = m()
            if x is STOP: return STOP
            if self.ex.branch(self.ex.invoke(self.f, [Ptr(Cell(x))])): return x
    def nxt(self): return self._s(self.it.nxt)
    def back(self): return self._s(self.it.back)
    def clone(self): return FilterIter(self.ex, self.it.clone(), self.f)
@model(r"^std::iter::Iterator::(\w+)$", r"as std::iter::Iterator>::(\w+)$", r"^std::iter::range::<impl std::iter::Iterator for .*>::(\w+)$", r"^std::iter::ExactSizeIterator::len$", r"as std::iter::ExactSizeIterator>::len", r"^rayon::iter::(?:Indexed)?ParallelIterator::(map|collect|enumerate|filter|filter_map|for_each|all|any)$")
def _(ex, f, a):
    n = f["def"].rsplit("::", 1)[1]
    p = a[0]
    it = to_iter(ex, p)
    if isinstance(p, Ptr) and isinstance(it, RangeIter) and not isinstance(ex.load(p), IterV): ex.store(p, it)
    if n == "map":
        fcl = a[1]; return MapIter(it, lambda x: ex.invoke_ptr(fcl if not isinstance(fcl, Clo) else cellof(fcl), [x]))
    if n == "enumerate":
        st = [0]
        class En(IterV):
            def nxt(s):
                x = it.nxt()
                if x is STOP: return STOP
                st[0] += 1; return Tup([st[0] - 1, x])
            def back(s):
                l = it.rest(); base = st[0]; 
                li = ListIter([Tup([base + i, x]) for i, x in enumerate(l)]); s.nxt = li.nxt; s.back = li.back
                return li.back()
        return En()
    if n == "rev": return RevIter(it)
    if n == "filter": return FilterIter(ex, it, cellof(a[1]))
    if n == "filter_map":
        fc = cellof(a[1])
        def g():
            while True:
                x = it.nxt()
                if x is STOP: return
                r = ex.need_adt(ex.invoke_ptr(fc, [x]))
                if r.f: yield r.f[0]
        return GenIter(g())
    if n in ("flat_map", "flatten"):
        fc = cellof(a[1]) if n == "flat_map" else None
        def g():
            while True:
                x = it.nxt()
                if x is STOP: return
                y = ex.invoke_ptr(fc, [x]) if fc else x
                j = to_iter(ex, y)
                while True:
                    z = j.nxt()
                    if z is STOP: break
                    yield z
        return GenIter(g())
    if n in ("cloned", "copied"): return MapIter(it, lambda x: ex.load(x) if isinstance(x, Ptr) else x)
    if n == "peekable": return PeekIter(it)
    if n == "zip":
        o = to_iter(ex, a[1])
        def g():
            while True:
                x = it.nxt()
                if x is STOP: return
                y = o.nxt()
                if y is STOP: return
                yield Tup([x, y])
        class Z(GenIter):
            def back(s):
                l = list(s.g); li = ListIter(l); s.nxt = li.nxt; s.back = li.back
                return li.back()
        return Z(g())
    if n == "chain":
        o = to_iter(ex, a[1])
        def g():
            for i in (it, o):
                while True:
                    x = i.nxt()
                    if x is STOP: break
                    yield x
        return GenIter(g())
    if n == "skip":
        k = ex.as_index(a[1])
        def g():
            for _ in range(k):
                if it.nxt() is STOP: return
            while True:
                x = it.nxt()
                if x is STOP: return
                yield x
        class Sk(GenIter):
            def back(s):
                l = list(s.g); li = ListIter(l); s.nxt = li.nxt; s.back = li.back
                return li.back()
        return Sk(g())
    if n == "take":
        k = ex.as_index(a[1])
        def g():
            for _ in range(k):
                x = it.nxt()
                if x is STOP: return
                yield x
        return GenIter(g())
    if n == "step_by":
        k = ex.as_index(a[1])
        def g():
            while True:
                x = it.nxt()
                if x is STOP: return
                yield x
                for _ in range(k - 1):
                    if it.nxt() is STOP: return
        return GenIter(g())
    if n in ("take_while", "skip_while", "map_while"):
        fc = cellof(a[1])
        def g():
            skipping = True
            while True:
                x = it.nxt()
                if x is STOP: return
                if n == "map_while":
                    r = ex.need_adt(ex.invoke_ptr(fc, [x]))
                    if not r.f: return
                    yield r.f[0]; continue
                if n == "take_while":
                    if not ex.branch(ex.invoke_ptr(fc, [Ptr(Cell(x))])): return
                    yield x
                else:
                    if skipping and ex.branch(ex.invoke_ptr(fc, [Ptr(Cell(x))])): continue
                    skipping = False; yield x
        return GenIter(g())
    if n in ("any", "all", "position", "find", "find_map"):
        fc = cellof(a[1]); i = 0
        while True:
            x = it.nxt()
            if x is STOP: return {"any": False, "all": True}.get(n, none(ex)) if n in ("any", "all") else none(ex)
            arg = Ptr(Cell(x)) if n == "find" else x
            r = ex.invoke_ptr(fc, [arg])
            if n == "find_map":
                r = ex.need_adt(r)
                if r.f: return r
                continue
            c = ex.branch(r, n)
            if n == "any" and c: return True
            if n == "all" and not c: return False
            if n == "position" and c: return some(ex, i)
            if n == "find" and c: return some(ex, x)
            i += 1
    if n in ("fold", "try_fold", "for_each"):
        if n == "for_each":
            fc = cellof(a[1])
            while True:
                x = it.nxt()
                if x is STOP: return UNIT
                ex.invoke_ptr(fc, [x])
        acc = a[1]; fc = cellof(a[2])
        if n == "try_fold": return NotImplemented
        while True:
            x = it.nxt()
            if x is STOP: return acc
            acc = ex.invoke_ptr(fc, [acc, x])
    if n in ("sum", "product"):
        acc = None
        tyid = f["args"][-1] if f.get("args") else None
        k = ex.prog.types[tyid]["k"] if isinstance(tyid, int) else "float"
        acc = (ZERO if n == "sum" else ONE) if k == "float" else (0 if n == "sum" else 1)
        if k == "adt": return NotImplemented
        for x in it.rest():
            acc = ex.binop("Add" if n == "sum" else "Mul", acc, ex.deref_all(x), tyid)
        return acc
    if n in ("max", "min"):
        best = None
        for x in it.rest():
            if best is None: best = x
            else:
                c = cmpv(ex, x, best)
                if (n == "max" and c >= 0) or (n == "min" and c < 0): best = x
        return none(ex) if best is None else some(ex, best)
    if n in ("max_by", "min_by", "max_by_key", "min_by_key"):
        best = None
        for x in it.rest():
            if best is None: best = x; continue
            if n.endswith("key"): c = cmpv(ex, ex.invoke(a[1], [Ptr(Cell(x))]), ex.invoke(a[1], [Ptr(Cell(best))]))
            else: c = ordv(ex, ex.invoke(a[1], [Ptr(Cell(x)), Ptr(Cell(best))]))
            if (n[:3] == "max" and c >= 0) or (n[:3] == "min" and c < 0): best = x
        return none(ex) if best is None else some(ex, best)
    if n in ("count", "len"):
        if n == "len" and hasattr(it, "clone"): return len(it.clone().rest())
        return len(it.rest())
    if n == "last":
        l = it.rest(); return some(ex, l[-1]) if l else none(ex)
    if n == "nth":
        for _ in range(ex.as_index(a[1])): it.nxt()
        return wrap_opt(ex, it.nxt())
    if n == "collect":
        tyid = None
        for x in reversed(f.get("args", [])):
            if isinstance(x, int): tyid = x; break
        return collect(ex, it, tyid)
    if n == "unzip":
        l = it.rest(); return Tup([VecV([x.f[0] for x in l]), VecV([x.f[1] for x in l])])
    if n == "partition":
        A, B = [], []
        for x in it.rest(): (A if ex.branch(ex.invoke(a[1], [Ptr(Cell(x))])) else B).append(x)
        return Tup([VecV(A), VecV(B)])
    if n == "by_ref": return a[0]
    if n == "size_hint": return Tup([0, none(ex)])
    if n == "eq":
        l, m = it.rest(), to_iter(ex, a[1]).rest()
        return len(l) == len(m) and all(ex.branch(eqv(ex, x, y)) for x, y in zip(l, m))
    return NotImplemented
def cellof(c): return Ptr(Cell(c)) if isinstance(c, Clo) else c
def collect(ex, it, tyid):
    n = ex.prog.types[tyid]["n"] if tyid is not None and ex.prog.types[tyid]["k"] == "adt" else ""
    if n in ("std::vec::Vec", "std::boxed::Box", "std::sync::Arc"):
        v = VecV(it.rest()); return v if n.endswith("Vec") else (BoxV(Cell(v)) if n.endswith("Box") else ArcV(Cell(v)))
    if n.endswith("HashSet") or n.endswith("BTreeSet"):
        m = MapV()
        for x in it.rest(): m = map_set(ex, m, x, UNIT)[0]
        return m
    if n.endswith("HashMap") or n.endswith("BTreeMap"):
        m = MapV()
        for x in it.rest(): m = map_set(ex, m, x.f[0], x.f[1])[0]
        return m
    if n.endswith("String"):
        out = []
        for x in it.rest():
            y = ex.deref_all(x)
            if isinstance(y, int): out.append(chr(y))
            else:
                y = S(ex, y)
                if not isinstance(y, str): return Opaque("string")
                out.append(y)
        return "".join(out)
    if n.endswith("Result") or n.endswith("Option"):
        inner = ex.prog.types[tyid]["a"][0]; got = []; isr = n.endswith("Result")
        while True:
            x = it.nxt()
            if x is STOP: break
            x = ex.need_adt(x)
            if (isr and x.var == 1) or (not isr and x.var == 0): return x
            got.append(x.f[0])
        v = collect(ex, ListIter(got), inner)
        return ok(ex, v) if isr else some(ex, v)
    raise Unsupported("collect into " + n)
@model(r"^std::array::from_fn$")
def _(ex, f, a): return VecV([ex.invoke(a[0], [i]) for i in range([x for x in f["args"] if isinstance(x, dict)][0]["const"])])
@model(r"^std::iter::(once|repeat|empty|repeat_n|from_fn)$")
def _(ex, f, a):
    n = f["def"].rsplit("::", 1)[1]
    if n == "once": return ListIter([a[0]])
    if n == "empty": return ListIter([])
    raise Unsupported(n)

# ------------------------------------------------------------------ strings
def str_eq(ex, x, y):
    x, y = S(ex, x), S(ex, y)
    if isinstance(x, str) and isinstance(y, str): return x == y
    if isinstance(x, StrSym) and isinstance(y, StrSym): return ex.sym_eq(x.s, y.s)
    if isinstance(y, StrSym): x, y = y, x
    if isinstance(x, StrSym) and isinstance(y, str): return ex.sym_eq(x.s, ex.known_symbol(y))
    return ex.branch(mk("bvar", ex.fresh_id("streq")))
@model(r"^std::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$", r"^<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$", r"^std::string::<impl std::cmp::PartialEq<")
def _(ex, f, a):
    r = str_eq(ex, a[0], a[1]); return r if f["def"].endswith("eq") else bnot(r)
@model(r"^<std::string::String as std::(ops::Deref|convert::AsRef<.*>|borrow::Borrow<.*>|clone::Clone)>::\w+$", r"^std::string::String::(as_str|from)$", r"^std::str::<impl std::borrow::ToOwned for str>::to_owned$",
       r"^<std::string::String as std::convert::From<.*>>::from$", r"^<std::sync::Arc<str> as std::convert::From<&str>>::from$", r"^<T as std::string::ToString>::to_string$", r"^std::str::<impl std::convert::AsRef<", r"^std::string::<impl std::convert::AsRef<", r"^std::str::<impl str>::to_string", r"^std::string::String::into_boxed_str", r"^<str as std::string")
def _(ex, f, a):
    try: return S(ex, a[0])
    except Unsupported: return Opaque("string")
@model(r"^std::string::String::new$", r"^<std::string::String as std::default::Default>::default$", r"^std::string::String::with_capacity$")
def _(ex, f, a): return ""
@model(r"^std::string::String::(push_str|push)$")
def _(ex, f, a):
    s = S(ex, a[0]); x = ex.deref_all(a[1])
    if isinstance(x, int): x = chr(x)
    elif not isinstance(x, str): x = S(ex, x)
    ex.store(a[0], s + x if isinstance(s, str) and isinstance(x, str) else Opaque("string")); return UNIT
@model(r"^std::str::<impl str>::(len|is_empty)$", r"^std::string::String::(len|is_empty)$")
def _(ex, f, a):
    s = S(ex, a[0]); e = f["def"].endswith("is_empty")
    if isinstance(s, str): return len(s.encode()) == 0 if e else len(s.encode())
    if e: return mk("bvar", "empty" + str(getattr(s, "s", s)))
    v = var(ex.fresh_id("i.len")); ex.ints.add(v); ex.nn.add(v); return v
@model(r"^std::str::<impl str>::(starts_with|ends_with|contains)$")
def _(ex, f, a):
    s = S(ex, a[0]); p = ex.deref_all(a[1]); n = f["def"].rsplit("::", 1)[1]
    if isinstance(p, int): p = chr(p)
    if isinstance(s, str) and isinstance(p, str): return {"starts_with": s.startswith, "ends_with": s.endswith, "contains": s.__contains__}[n](p)
    return ex.branch(mk("bvar", f"{n}:{getattr(getattr(s,'s',s),'id',s)}:{p}"))
@model(r"^std::str::<impl str>::(trim|to_lowercase|replace)$")
def _(ex, f, a):
    s = S(ex, a[0]); n = f["def"].rsplit("::", 1)[1]
    if isinstance(s, str):
        if n == "trim": return s.strip()
        if n == "to_lowercase": return s.lower()
        x, y = ex.deref_all(a[1]), ex.deref_all(a[2])
        return s.replace(chr(x) if isinstance(x, int) else x, y)
    return Opaque("string")
@model(r"^std::str::<impl str>::(chars|char_indices|bytes)$")
def _(ex, f, a):
    s = S(ex, a[0])
    if not isinstance(s, str): raise Unsupported("chars of unknown string")
    n = f["def"].rsplit("::", 1)[1]
    if n == "chars": return ListIter([ord(c) for c in s])
    if n == "bytes": return ListIter(list(s.encode()))
    out = []; o = 0
    for c in s: out.append(Tup([o, ord(c)])); o += len(c.encode())
    return ListIter(out)
@model(r"^std::str::<impl str>::get$", r"^std::str::traits::<impl std::ops::Index<I> for str>::index$", r"^<std::string::String as std::ops::Index<I>>::index")
def _(ex, f, a):
    s = S(ex, a[0])
    if not isinstance(s, str): raise Unsupported("slice of unknown string")
    b = s.encode(); r = ex.deref_all(a[1]); lo, hi = range_bounds(ex, r, len(b))
    try:
        if not (lo <= hi <= len(b)): raise ValueError
        x = b[lo:hi].decode(); b[:lo].decode()
        return some(ex, x) if f["def"].endswith("get") else x
    except (ValueError, UnicodeDecodeError):
        if f["def"].endswith("get"): return none(ex)
        ex.panic("str slice")
@model(r"^std::str::<impl str>::parse$")
def _(ex, f, a):
    s = S(ex, a[0])
    if not isinstance(s, str): raise Unsupported("parse unknown string")
    try: return ok(ex, num(Fraction(s)))
    except Exception: return err(ex, Opaque("ParseFloatError"))
@model(r"^std::char::methods::<impl char>::(\w+)$")
def _(ex, f, a):
    c = ex.deref_all(a[0]); n = f["def"].rsplit("::", 1)[1]
    if not isinstance(c, int): raise Unsupported("symbolic char")
    ch = chr(c)
    r = {"is_alphanumeric": ch.isalnum, "is_alphabetic": ch.isalpha, "is_ascii_whitespace": lambda: ch in " \t\n\r\x0c", "is_whitespace": ch.isspace,
         "is_ascii_digit": lambda: ch in "0123456789", "is_numeric": ch.isnumeric, "is_ascii_alphabetic": lambda: ch.isascii() and ch.isalpha(),
         "is_ascii_alphanumeric": lambda: ch.isascii() and ch.isalnum(), "len_utf8": lambda: len(ch.encode())}.get(n)
    if r: return r()
    return NotImplemented
# formatting: opaque
@model(r"^std::fmt::", r"^std::io::_e?print", r"<impl std::fmt", r"^<.* as std::fmt::")
def _(ex, f, a):
    n = f["def"].rsplit("::", 1)[1]
    if n == "format": return Opaque("string")
    if n in ("write_fmt", "write_str", "fmt", "finish", "pad") or "finish" in n: return ok(ex, UNIT)
    if n in ("_eprint", "_print"): return UNIT
    return Opaque("fmt")
@model(r"^<std::borrow::Cow<.*> as ")
def _(ex, f, a):
    v = ex.deref_all(a[0])
    if isinstance(v, Adt): return v.f[0] if v.f else v
    return v

# ------------------------------------------------------------------ maps
def as_map(ex, p):
    v = ex.deref_all(p)
    if isinstance(v, MapV): return v
    if isinstance(v, Opaque): raise Unsupported("opaque map")
    if isinstance(v, Sym):
        h = ex.opts.get("symmap")
        if h: return h(ex, v)
        r = MapV(); ex.refine[v.id] = r; ex.notes.add("empty-map"); return r
    raise Unsupported(f"map {type(v).__name__}")
def map_find(ex, m, k):
    for i, (kk, vv) in enumerate(m.kv):
        if ex.branch(eqv(ex, kk, k)): return i
    return None
def map_set(ex, m, k, v):
    i = map_find(ex, m, k)
    if i is None: return MapV(m.kv + ((k, v),)), None
    l = list(m.kv); old = l[i][1]; l[i] = (l[i][0], v); return MapV(l), old
def mptr(ex, p): return vptr(ex, p)
@model(r"^std::collections::Hash(Map|Set)::<.*>::(new|with_capacity|with_hasher|with_capacity_and_hasher)$", r"^<std::collections::Hash(Map|Set)<.*> as std::default::Default>::default$")
def _(ex, f, a): return MapV()
@model(r"^<std::collections::Hash(Map|Set)<.*> as std::clone::Clone>::clone$")
def _(ex, f, a): return ex.deref_all(a[0])
@model(r"^std::collections::Hash(Map|Set)::<.*>::(\w+)$", r"^<std::collections::Hash(Map|Set)<.*> as std::(ops::Index|iter::Extend)<.*>>::(index|extend)$")
def _(ex, f, a):
    n = f["def"].rsplit("::", 1)[1]; isset = "HashSet" in f["def"].split(" as ")[0]
    m = as_map(ex, a[0])
    K = lambda x: ex.deref_all(x) if not isinstance(ex.force(x), (ArcV,)) else ex.force(x)
    if n in ("get", "contains", "contains_key", "index", "get_mut", "remove"):
        i = map_find(ex, m, a[1])
        if n in ("contains", "contains_key"): return i is not None
        if n == "index":
            if i is None: ex.panic("map index")
            return Ptr(Cell(m.kv[i][1]))
        if n == "remove":
            if i is None: return False if isset else none(ex)
            ex.store(mptr(ex, a[0]), MapV(m.kv[:i] + m.kv[i + 1:]))
            return True if isset else some(ex, m.kv[i][1])
        if i is None: return none(ex)
        if n == "get_mut":
            return some(ex, Ptr(MapCell(ex, mptr(ex, a[0]), m.kv[i][0])))
        return some(ex, Ptr(Cell(m.kv[i][1] if not isset else m.kv[i][0])))
    if n == "insert":
        m2, old = map_set(ex, m, a[1], UNIT if isset else a[2]); ex.store(mptr(ex, a[0]), m2)
        return (old is None) if isset else (none(ex) if old is None else some(ex, old))
    if n in ("len",): return len(m.kv)
    if n == "is_empty": return not m.kv
    if n == "clear": ex.store(mptr(ex, a[0]), MapV()); return UNIT
    if n == "keys": return ListIter([Ptr(Cell(k)) for k, _ in m.kv])
    if n == "values": return ListIter([Ptr(Cell(v)) for _, v in m.kv])
    if n in ("into_keys",): return ListIter([k for k, _ in m.kv])
    if n in ("into_values",): return ListIter([v for _, v in m.kv])
    if n == "reserve": return UNIT
    if n == "extend":
        for x in to_iter(ex, a[1]).rest():
            if isset: m = map_set(ex, m, x, UNIT)[0]
            else: m = map_set(ex, m, x.f[0], x.f[1])[0]
        ex.store(mptr(ex, a[0]), m); return UNIT
    if n == "entry":
        return EntryV(mptr(ex, a[0]), a[1])
    return NotImplemented
class EntryV:
    def __init__(self, p, k): self.p = p; self.k = k
class MapCell(Cell):
    """cell that writes through to a map entry"""
    __slots__ = ("ex", "p", "k")
    def __init__(self, ex, p, k): self.ex = ex; self.p = p; self.k = k; self.tag = None
    @property
    def v(self):
        m = as_map(self.ex, self.p)
        for kk, vv in m.kv:
            if kk is self.k: return vv
        raise Unsupported("map cell")
    @v.setter
    def v(self, x):
        m = as_map(self.ex, self.p)
        self.ex.store(self.p, MapV([(kk, x if kk is self.k else vv) for kk, vv in m.kv]))
@model(r"^std::collections::hash_map::Entry::<.*>::(\w+)$")
def _(ex, f, a):
    e = a[0]; n = f["def"].rsplit("::", 1)[1]
    if not isinstance(e, EntryV): return NotImplemented
    m = as_map(ex, e.p); i = map_find(ex, m, e.k)
    if n in ("or_insert", "or_insert_with", "or_default"):
        if i is None:
            if n == "or_insert": v = a[1]
            elif n == "or_insert_with": v = ex.invoke(a[1], [])
            else:
                v = default_of(ex, f["args"][1] if len([x for x in f["args"] if isinstance(x, int)]) > 1 else None)
            m = as_map(ex, e.p)
            ex.store(e.p, MapV(m.kv + ((e.k, v),))); key = e.k
        else: key = m.kv[i][0]
        return Ptr(MapCell(ex, e.p, key))
    if n == "and_modify":
        if i is not None: ex.invoke(a[1], [Ptr(MapCell(ex, e.p, m.kv[i][0]))])
        return e
    return NotImplemented
def default_of(ex, ty):
    t = ex.prog.types[ty]; k = t["k"]
    if k in ("int", "uint"): return 0
    if k == "float": return ZERO
    if k == "bool": return False
    if k == "adt":
        if t["n"] == "std::vec::Vec": return VecV(())
        if "HashMap" in t["n"] or "HashSet" in t["n"]: return MapV()
        if t["n"].endswith("String"): return ""
    raise Unsupported("default")

@model(r"^<std::sync::Arc<T> as std::default::Default>::default$")
def _(ex, f, a):
    for x in f.get("args", []):
        if isinstance(x, int): return ArcV(Cell(default_of(ex, x)))
    return NotImplemented
# ------------------------------------------------------------------ locks, cells, statics
@model(r"^std::sync::(RwLock|Mutex)::<T>::(write|read|lock)$", r"^std::cell::RefCell::<T>::(borrow|borrow_mut)$")
def _(ex, f, a):
    p = vptr_lock(ex, a[0])
    return ok(ex, p) if "sync" in f["def"] else p
def vptr_lock(ex, p):
    p = ex.force(p); v = ex.force(ex.load(p))
    while isinstance(v, (Ptr, ArcV, BoxV)): p = Ptr(v.c, getattr(v, "p", ())); v = ex.force(ex.load(p))
    return p
@model(r"^std::sync::(RwLock|Mutex|OnceLock)::<T>::new$", r"^std::cell::(RefCell|Cell)::<T>::new$")
def _(ex, f, a): return a[0] if a else none(ex)
@model(r"^<std::(sync::(RwLock(Read|Write)Guard|MutexGuard)|cell::(Ref|RefMut))<.*> as std::ops::Deref(Mut)?>::")
def _(ex, f, a): return ex.load(a[0])
@model(r"^std::sync::OnceLock::<T>::get_or_init$")
def _(ex, f, a):
    v = ex.force(ex.load(a[0]))
    if isinstance(v, (Named, Sym, Opaque)) or (isinstance(v, Adt) and v.var == 0):
        x = ex.invoke(a[1], []); ex.store(a[0], some(ex, x))
    return Ptr(a[0].c, a[0].p + (("f", 0),))
@model(r"^std::sync::OnceLock::<T>::get$")
def _(ex, f, a):
    v = ex.need_adt(ex.force(ex.load(a[0])))
    return none(ex) if not v.f else some(ex, Ptr(a[0].c, a[0].p + (("f", 0),)))
@model(r"^<std::sync::LazyLock<.*> as std::ops::Deref>::deref$")
def _(ex, f, a):
    p = a[0]; v = ex.load(p)
    if isinstance(v, Named):
        h = ex.opts.get("lazy", {}).get(v.name)
        if h: x = h(ex)
        else:
            g = None
            for cand in (v.name + "::{closure#0}", v.name + "::{constant#0}::{closure#0}") + ((v.name.rsplit("::", 1)[0] + "::KnownSymbols::new",) if v.name.endswith("known_symbols::KS") else ()):
                if cand in ex.prog.byname: g = ex.prog.byname[cand]; break
            if g is None: raise Unsupported("lazy static " + v.name)
            x = ex.run(g, [Clo(g["id"], Tup(()))] if g["body"]["argc"] else [])
        ex.store(p, x)
    return p
@model(r"^std::thread::LocalKey::<T>::with$")
def _(ex, f, a): raise Unsupported("thread local")
@model(r"^std::sync::atomic::Atomic")
def _(ex, f, a):
    v = var(ex.fresh_id("i.atomic")); ex.ints.add(v); ex.nn.add(v); return v
@model(r"Hasher", r"std::hash::")
def _(ex, f, a):
    if f["def"].endswith("finish"):
        v = var(ex.fresh_id("i.hash")); ex.ints.add(v); ex.nn.add(v); return v
    if f["def"].endswith("default"): return Opaque("hasher")
    return UNIT
@model(r"^std::env::var$")
def _(ex, f, a): return err(ex, Opaque("VarError"))
@model(r"^std::mem::discriminant$")
def _(ex, f, a): return ex.discr(ex.need_adt(ex.deref_all(a[0])))
@model(r"^std::ptr::mut_ptr::<impl \*mut T>::cast$", r"^std::ptr::const_ptr::<impl \*const T>::cast")
def _(ex, f, a): return a[0]
@model(r"^<std::\w+::.*Iter.* as std::clone::Clone>::clone$", r"^<std::str::Chars.* as std::clone::Clone>::clone")
def _(ex, f, a): return ex.deref_all(a[0]).clone()
