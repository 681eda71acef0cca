"""Contracts of the evaluator's instructions.

Every instruction has one contract, stated over a ghost stack of unknown height L: how many values it takes, what it
leaves, what it stores where.  The loop bodies of evaluate_inline / evaluate_heap and the functions
exec_simd_instruction / exec_scalar_batch_instruction are executed symbolically for each instruction variant from an
arbitrary state, and must meet that contract; stack_effect() must state its net effect."""
import re
from fractions import Fraction
from . import term as tm, sym, models, den, harness as H
from .term import T, num, mk, var, fn, ZERO, ONE, TWO
from .sym import (Ex, explore, Adt, Tup, VecV, Ptr, ArcV, BoxV, Clo, FnItem, Sym, Cell, Region, UNIT, UNINIT, IterV, STOP,
                  Unsupported, Infeasible, Cutoff, Panic)

INS = "symb_anafis::evaluator::instruction::Instruction"
CE = "symb_anafis::evaluator::CompiledEvaluator"
FUNC = {v: v.lower() for v in "Sin Cos Tan Asin Acos Atan Sinh Cosh Tanh Asinh Acosh Atanh Exp Ln Sqrt Cbrt Abs Signum Floor Ceil Round Erf Erfc Gamma Digamma Trigamma Tetragamma Sinc LambertW Zeta Atan2 Log BesselJ BesselY BesselI BesselK Polygamma Beta Hermite".split()}
FUNC.update({"EllipticK": "elliptic_k", "EllipticE": "elliptic_e", "ExpPolar": "exp_polar", "ZetaDeriv": "zeta_deriv", "AssocLegendre": "assoc_legendre", "SphericalHarmonic": "spherical_harmonic"})
exp_ = lambda x: fn("exp", x)
rec = lambda x: tm.div(ONE, x)
# name -> (pops, values left bottom to top as functions of the popped operands bottom to top)
PURE = {
    "Dup": (1, lambda a: [a, a]), "Pop": (1, lambda a: []), "Swap": (2, lambda a, b: [b, a]),
    "Add": (2, lambda a, b: [tm.add(a, b)]), "Mul": (2, lambda a, b: [tm.mul(a, b)]), "Div": (2, lambda a, b: [tm.div(a, b)]), "Sub": (2, lambda a, b: [tm.sub(a, b)]),
    "Neg": (1, lambda a: [tm.neg(a)]), "Pow": (2, lambda a, b: [tm.powt(a, b)]),
    "Expm1": (1, lambda a: [tm.sub(exp_(a), ONE)]), "Log1p": (1, lambda a: [fn("ln", tm.add(ONE, a))]), "ExpNeg": (1, lambda a: [exp_(tm.neg(a))]),
    "Square": (1, lambda a: [tm.powt(a, num(2))]), "Cube": (1, lambda a: [tm.powt(a, num(3))]), "Pow4": (1, lambda a: [tm.powt(a, num(4))]),
    "Pow3_2": (1, lambda a: [tm.mul(a, tm.sqrt(a))]), "InvPow3_2": (1, lambda a: [rec(tm.mul(a, tm.sqrt(a)))]), "InvSqrt": (1, lambda a: [rec(tm.sqrt(a))]),
    "InvSquare": (1, lambda a: [rec(tm.mul(a, a))]), "InvCube": (1, lambda a: [rec(tm.mul(a, tm.mul(a, a)))]), "Recip": (1, lambda a: [rec(a)]),
    "MulAdd": (3, lambda a, b, c: [tm.add(tm.mul(a, b), c)]), "MulSub": (3, lambda a, b, c: [tm.sub(tm.mul(a, b), c)]), "NegMulAdd": (3, lambda a, b, c: [tm.sub(c, tm.mul(a, b))]),
    "RecipExpm1": (1, lambda a: [rec(tm.sub(exp_(a), ONE))]), "ExpSqr": (1, lambda a: [exp_(tm.mul(a, a))]), "ExpSqrNeg": (1, lambda a: [exp_(tm.neg(tm.mul(a, a)))]),
}
MEM = {"LoadConst", "LoadParam", "StoreCached", "LoadCached", "MulConst", "AddConst", "SubConst", "ConstSub", "Powi", "PolyEval"}

# ------------------------------------------------------------------ memory contracts
class V4:
    __slots__ = ("l",)
    def __init__(self, l): self.l = tuple(l)
    def __repr__(self): return f"V4{self.l}"
class ProgIter(IterV):
    """the evaluator's instruction list"""
    def __init__(self, cb): self.cb = cb
class BodyDone(Exception): pass
class Bad(Exception): pass

def region_of(ex, p):
    v = ex.force(p)
    while True:
        if isinstance(v, Region): return v
        if isinstance(v, (Ptr, BoxV, ArcV)): v = ex.force(ex.load(v)); continue
        return None
def reg_ptr(ex, p):
    """pointer to the region itself"""
    p = ex.force(p)
    while True:
        v = ex.force(ex.load(p))
        if isinstance(v, Region): return p if isinstance(p, Ptr) else Ptr(p.c)
        if isinstance(v, (Ptr, BoxV, ArcV)): p = v; continue
        return None
def raw_init(ex, rg, k):
    if isinstance(k, int):
        if k >= 0: ex.ghost.setdefault("viol", []).append(f"read of {rg.name}[L+{k}] before it was written")
        return stack_value(ex, k)
    return fn("mem:" + rg.name, k)
def stack_value(ex, k):
    if ex.ghost.get("lanes"): return V4([var(f"st{k}_{j}") for j in range(4)])
    return var(f"st{k}")
def contracts(p):
    c = dict(math_contracts(p))
    def mut_ptr(ex, f, a):
        q = reg_ptr(ex, a[0]) if region_of(ex, a[0]) is not None else None
        if q is None:
            v = a[0]
            tgt = models.vptr(ex, v)
            arr = ex.force(ex.load(tgt))
            if not isinstance(arr, VecV): return NotImplemented
            n = ex.ghost.get("nreg", 0); ex.ghost["nreg"] = n + 1
            rg = Region(f"R{n}", len(arr.e), raw_init)
            ex.ghost.setdefault("regions", []).append(rg)
            ex.store(tgt, rg); q = tgt
        return Ptr(q.c, q.p + (("ri", 0),))
    def padd(ex, f, a):
        p_ = a[0]
        if not (isinstance(p_, Ptr) and p_.p and p_.p[-1][0] == "ri"): return NotImplemented
        i = ex.toint(ex.arith2("Add", ex.nf(ex.num_of(p_.p[-1][1])), ex.nf(ex.num_of(a[1])), False), False)
        return Ptr(p_.c, p_.p[:-1] + (("ri", i),))
    def psub(ex, f, a):
        p_ = a[0]
        if not (isinstance(p_, Ptr) and p_.p and p_.p[-1][0] == "ri"): return NotImplemented
        return Ptr(p_.c, p_.p[:-1] + (("ri", ex.toint(ex.arith2("Sub", ex.nf(ex.num_of(p_.p[-1][1])), ex.nf(ex.num_of(a[1])), False), False)),))
    def pread(ex, f, a): return ex.load(a[0])
    def pwrite(ex, f, a): ex.store(a[0], a[1]); return UNIT
    def vpush(ex, f, a):
        rg = region_of(ex, a[0])
        if rg is None: return NotImplemented
        rg.write(ex, rg.len, a[1]); rg.len = tm.add(ex.num_of(rg.len), ONE); return UNIT
    def vpop(ex, f, a):
        rg = region_of(ex, a[0])
        if rg is None: return NotImplemented
        t = ex.nf(ex.num_of(rg.len))
        if ex.branch(ex.cmp("eq", t, ZERO)): return models.none(ex)
        i = tm.sub(t, ONE); v = rg.read(ex, i); rg.len = i; return models.some(ex, v)
    def vsetlen(ex, f, a):
        rg = region_of(ex, a[0])
        if rg is None: return NotImplemented
        rg.len = ex.num_of(a[1]); return UNIT
    def vclear(ex, f, a):
        rg = region_of(ex, a[0])
        if rg is None: return NotImplemented
        rg.len = ZERO; ex.ghost["cleared"] = True; return UNIT
    def vlen(ex, f, a):
        rg = region_of(ex, a[0])
        if rg is None: return NotImplemented
        l = ex.vec_len(rg)
        return l if f["def"].endswith("::len") else ex.cmp("eq", ex.nf(ex.num_of(l)), ZERO)
    def into_iter(ex, f, a):
        v = a[0]
        for _ in range(4):
            v = ex.force(v)
            if isinstance(v, ProgIter): return v
            if isinstance(v, (Ptr, BoxV, ArcV)): v = ex.load(v)
            else: break
        return NotImplemented
    def nxt(ex, f, a):
        v = ex.force(ex.load(a[0]))
        if isinstance(v, ProgIter): return v.cb(ex)
        return NotImplemented
    def rnext(ex, f, a):
        h = ex.ghost.get("horner_next")
        return h(ex, f, a) if h is not None else NotImplemented
    def ident(ex, f, a):
        v = ex.force(a[0])
        if isinstance(v, Ptr) and (isinstance(ex.force(ex.load(v)), ProgIter)): return v
        return NotImplemented
    rx = [(r"^std::slice::<impl \[T\]>::as_mut_ptr$|^std::slice::<impl \[T\]>::as_ptr$|^std::vec::Vec::<T, A>::as_mut_ptr$|^std::vec::Vec::<T, A>::as_ptr$", mut_ptr),
          (r"ptr::(mut|const)_ptr::<impl \*(mut|const) T>::add$", padd), (r"ptr::(mut|const)_ptr::<impl \*(mut|const) T>::sub$", psub),
          (r"ptr::(mut|const)_ptr::<impl \*(mut|const) T>::read$|^std::ptr::read$", pread), (r"ptr::mut_ptr::<impl \*mut T>::write$|^std::ptr::write$", pwrite),
          (r"ptr::(mut|const)_ptr::<impl \*(mut|const) T>::cast$", lambda ex, f, a: a[0]),
          (r"^std::vec::Vec::<T, A>::push$", vpush), (r"^std::vec::Vec::<T, A>::pop$", vpop), (r"^std::vec::Vec::<T, A>::set_len$", vsetlen), (r"^std::vec::Vec::<T, A>::clear$", vclear),
          (r"^std::(vec::Vec::<T, A>|slice::<impl \[T\]>)::(len|is_empty)$", vlen),
          (r"Iterator for std::ops::Range(Inclusive)?<A>>::next$", rnext),
          (r"::into_iter$|^std::slice::<impl \[T\]>::iter$", into_iter), (r"std::slice::Iter<'a, T> as std::iter::Iterator>::next$", nxt)]
    for f in p.fns:
        for r, h in rx:
            if re.search(r, f["def"]): c[f["def"]] = h
        w = wide_contract(f["def"])
        if w: c[f["def"]] = w
    # callee names that only occur unresolved
    return c
U = {"sqrt", "exp", "ln", "abs", "floor", "ceil", "round", "sin", "cos", "tan"}
def wide_contract(d):
    m = re.match(r"^wide::f64x4::(\w+)$", d)
    if m:
        n = m.group(1)
        def lane(x): return x.l if isinstance(x, V4) else None
        def val(ex, x):
            x = ex.deref_all(x)
            if not isinstance(x, V4): raise Unsupported("lane value")
            return x
        if n == "new": return lambda ex, f, a: V4([ex.nf(ex.num_of(x)) for x in ex.need_vec(a[0]).e])
        if n == "splat": return lambda ex, f, a: V4([ex.nf(ex.num_of(a[0]))] * 4)
        if n == "to_array": return lambda ex, f, a: VecV(val(ex, a[0]).l)
        if n in U: return lambda ex, f, a: V4([models.f_un(ex, n, x) for x in val(ex, a[0]).l])
        if n == "mul_add": return lambda ex, f, a: V4([tm.add(tm.mul(x, y), z) for x, y, z in zip(val(ex, a[0]).l, val(ex, a[1]).l, val(ex, a[2]).l)])
        if n == "mul_sub": return lambda ex, f, a: V4([tm.sub(tm.mul(x, y), z) for x, y, z in zip(val(ex, a[0]).l, val(ex, a[1]).l, val(ex, a[2]).l)])
        if n == "mul_neg_add": return lambda ex, f, a: V4([tm.sub(z, tm.mul(x, y)) for x, y, z in zip(val(ex, a[0]).l, val(ex, a[1]).l, val(ex, a[2]).l)])
        if n in ("pow_f64x4",): return lambda ex, f, a: V4([models.f_pow(ex, x, y) for x, y in zip(val(ex, a[0]).l, val(ex, a[1]).l)])
        if n in ("recip",): return lambda ex, f, a: V4([rec(x) for x in val(ex, a[0]).l])
        return None
    m = re.match(r"^<&?wide::f64x4 as std::ops::(\w+?)(Assign)?(<.*>)?>::\w+$", d)
    if m:
        op = {"Add": tm.add, "Sub": tm.sub, "Mul": tm.mul, "Div": tm.div}.get(m.group(1))
        def v4(ex, x):
            x = ex.deref_all(x)
            return x if isinstance(x, V4) else V4([ex.nf(ex.num_of(x))] * 4)
        if m.group(1) == "Neg": return lambda ex, f, a: V4([tm.neg(x) for x in v4(ex, a[0]).l])
        if op is None: return None
        if m.group(2):
            def h(ex, f, a, op=op):
                ex.store(a[0], V4([op(x, y) for x, y in zip(v4(ex, a[0]).l, v4(ex, a[1]).l)])); return UNIT
            return h
        return lambda ex, f, a, op=op: V4([op(x, y) for x, y in zip(v4(ex, a[0]).l, v4(ex, a[1]).l)])
    return None
def math_contracts(p):
    """numeric special functions: uninterpreted, the same application always gives the same result (or always declines)"""
    c = {}
    for f in p.fns:
        n = f["name"]
        if not n.startswith("symb_anafis::math::") or "body" not in f or "dual" in n or "{closure" in n: continue
        b = f["body"]
        rt = p.types[b["locals"][0]]
        base = n.split("::<")[0].split("::")[-1]
        opt = rt["k"] == "adt" and rt["n"] == "std::option::Option"
        if opt: inner = p.types[rt["a"][0]]
        if not (rt["k"] == "float" or opt and inner["k"] == "float"): continue
        if not all(p.types[t]["k"] in ("float", "int", "uint") for t in b["locals"][1:b["argc"] + 1]): continue
        def h(ex, f_, a, base=base, opt=opt):
            args = [ex.nf(ex.num_of(x)) for x in a]
            if base == "eval_zeta_deriv" and tm.isnum(args[0]) and args[0].a[0] == 0: return NotImplemented      # order 0: its body
            if any(x is tm.NAN for x in args): return models.none(ex) if opt else tm.NAN
            t = fn("m:" + base, *args)
            if not opt: return t
            memo = ex.ghost.setdefault("mathmemo", {})
            if t not in memo: memo[t] = ex.choose(2, "defined " + base)
            return models.some(ex, t) if memo[t] == 0 else models.none(ex)
        c[f["def"]] = h; c[n] = h
    return c

# ------------------------------------------------------------------ the contract of one instruction
def variants(p):
    return [v["n"] for v in p.types[p.adt(INS)]["v"]]
def field_var(ty_k, name):
    return var("i." + name)
def make_instr(ex, p, vn, pe_deg=None):
    ty = p.adt(INS); vs = p.types[ty]["v"]
    vi = next(i for i, v in enumerate(vs) if v["n"] == vn)
    fs = []
    for fname, fty in vs[vi]["f"]:
        x = var("i.k" if vn == "Powi" else "i.c"); ex.ints.add(x)
        if p.types[fty]["k"] == "uint": ex.nn.add(x)
        fs.append(x)
    return Adt(ty, vi, fs)
class Spec:
    """pops, pushes(ex, operands) -> list, cache store"""
def spec(ex, p, vn, ops, arg, env, table):
    """values left on the stack, given operands bottom to top; env: const(k), param(k), cache(k)"""
    if vn in PURE: return PURE[vn][1](*ops)
    if vn == "LoadConst": return [env["const"](arg)]
    if vn == "LoadParam": return [env["param"](arg)]
    if vn == "LoadCached": return [env["cache"](arg)]
    if vn == "StoreCached": return [ops[0]]
    if vn == "MulConst": return [tm.mul(ops[0], env["const"](arg))]
    if vn == "AddConst": return [tm.add(ops[0], env["const"](arg))]
    if vn == "SubConst": return [tm.sub(ops[0], env["const"](arg))]
    if vn == "ConstSub": return [tm.sub(env["const"](arg), ops[0])]
    if vn == "Powi": return [tm.powt(ops[0], ex.nf(arg))]
    if vn == "PolyEval":
        if isinstance(ex.ghost["degree"], T): return [ex.ghost["horner_end"]]
        r = env["const"](tm.add(arg, ONE)); d = ex.ghost["degree"]
        for i in range(d): r = tm.add(tm.mul(r, ops[0]), env["const"](tm.add(arg, num(2 + i))))
        return [r]
    if vn in FUNC:
        e = table[FUNC[vn]]
        v = ex.need_adt(ex.invoke_ptr(models.cellof(e[1]), [Ptr(Cell(VecV(list(ops))))]))
        return [ex.nf(ex.num_of(v.f[0])) if v.f else tm.NAN]
    return None
def pops(p, vn, table):
    if vn in PURE: return PURE[vn][0]
    if vn in ("LoadConst", "LoadParam", "LoadCached"): return 0
    if vn in MEM: return 1
    if vn in FUNC and FUNC[vn] in table: return table[FUNC[vn]][0]
    return None

CTX = {}
def eval_struct(ex, p, cb, consts, simd=None):
    """a CompiledEvaluator with an arbitrary program"""
    ty = p.adt(CE); fs = []
    for n, t in p.types[ty]["v"][0]["f"]:
        k = p.types[t]
        if n == "instructions" or (k["k"] == "adt" and any(isinstance(a, int) and p.types[a].get("n") == INS for a in k.get("a", []) if isinstance(a, int))) or is_box_slice(p, k, INS):
            fs.append(BoxV(Cell(ProgIter(cb))))
        elif n == "constants" or is_box_slice(p, k, None): fs.append(BoxV(Cell(consts)))
        elif k["k"] == "uint":
            v = var("i." + n); ex.ints.add(v); ex.nn.add(v); fs.append(v)
        else: fs.append(sym.Opaque("field:" + n))
    return Adt(ty, 0, fs)
def is_box_slice(p, k, elem):
    if k["k"] != "adt" or not k["n"].endswith("boxed::Box") and not k["n"].endswith("Vec"): return False
    e = p.types[k["a"][0]]
    if e["k"] == "slice": e = p.types[e["e"]]
    return e.get("n") == elem if elem else e["k"] == "float"
def arr_init(name, lanes=False):
    def init(ex, rg, k):
        if isinstance(k, int) and ex.ghost.get("L") is not None: k = tm.add(ex.ghost["L"], num(k))
        k = k if isinstance(k, T) else num(k)
        if name == "const":
            if ex.ghost.get("degree") is not None and ex.nf(k) is ex.nf(var("i.c")): v = ex.num_of(ex.ghost["degree"])
            else: v = fn("mem:const", ex.nf(k))
            return V4([v] * 4) if lanes else v
        return fn("mem:" + name, ex.nf(k))
    return init
def base_regions(ex, p, vn):
    nc = var("i.nconst"); ex.ints.add(nc); ex.nn.add(nc)
    npar = var("i.nparam"); ex.ints.add(npar); ex.nn.add(npar)
    ncache = var("i.ncache"); ex.ints.add(ncache); ex.nn.add(ncache)
    consts = Region("const", nc, arr_init("const"))
    c = var("i.c"); ex.ints.add(c); ex.nn.add(c)
    if vn in ("LoadConst", "MulConst", "AddConst", "SubConst", "ConstSub"): ex.assume(mk("lt", c, nc))
    if vn == "PolyEval": ex.assume(mk("lt", tm.add(c, tm.add(ONE, ex.num_of(ex.ghost["degree"]))), nc))
    if vn in ("StoreCached", "LoadCached"): ex.assume(mk("lt", c, ncache))
    return consts, nc, npar, ncache
def lanes_of(v): return v.l if isinstance(v, V4) else (v,)
def horner(ex):
    """the coefficient loop, by its invariant: after t iterations the accumulator holds the value of the first t+1 coefficients.
    Entry: accumulator == constants[c+1], range of `degree` iterations.  Step: acc' == acc*x + constants[c+2+t]."""
    st = {"n": 0}; bad = ex.ghost.setdefault("horner_bad", []); obl = ex.ghost.setdefault("horner_obl", [])
    ln = ex.ghost["lanes"]; c = var("i.c")
    R = V4([var(f"acc{j}") for j in range(4)]) if ln else var("acc"); E = V4([var(f"end{j}") for j in range(4)]) if ln else var("end")
    ex.ghost["horner_end"] = var("end"); ex.ghost["horner_on"] = True
    def same(v, w): return isinstance(v, (T, V4)) and len(lanes_of(v)) == len(lanes_of(w)) and all(ex.nf(a) is ex.nf(b) for a, b in zip(lanes_of(v), lanes_of(w)))
    def nxt(ex, f, a):
        st["n"] += 1; fr = ex.frame; named = [l for _, l in fr["body"].get("vars", [])]
        if st["n"] == 1:
            r = ex.force(ex.load(a[0]))
            if not isinstance(r, models.RangeIter) or r.b is None: raise Unsupported("coefficient loop")
            lo, hi = ex.num_of(r.a), ex.num_of(r.b)
            n = tm.add(tm.sub(hi, lo), ONE) if r.incl else tm.sub(hi, lo)
            obl.append(("iterations", ex.ghost["degree"], ex.nf(n)))
            c1 = fn("mem:const", ex.nf(tm.add(c, ONE))); first = V4([c1] * 4) if ln else c1
            acc = [l for l in dict.fromkeys(named) if l < len(fr["L"]) and same(fr["L"][l].v, first)]
            if len(acc) != 1: raise Unsupported("accumulator not recognised")
            st["acc"] = acc[0]; fr["L"][acc[0]].v = R
            t = var("i.t"); ex.ints.add(t); ex.nn.add(t); ex.assume(mk("lt", t, ex.ghost["degree"]))
            st["t"] = t
            return models.some(ex, ex.nf(tm.add(lo, t)))
        if st["n"] == 2:
            v = fr["L"][st["acc"]].v
            k = fn("mem:const", ex.nf(tm.add(tm.add(c, num(2)), st["t"])))
            for j, (x, g) in enumerate(zip(lanes_of(R), lanes_of(v))):
                top = var(f"st-1_{j}") if ln else var("st-1")
                obl.append(("coefficient step", tm.add(tm.mul(x, top), k), g))
            fr["L"][st["acc"]].v = E
            return models.none(ex)
        raise Unsupported("coefficient loop entered twice")
    ex.ghost["horner_next"] = nxt
def run_variant(p, cs, table, target, fid, vn, deg=None, budget=20.0):
    """-> explore result whose values are (spec list, got list, problems)"""
    fn_ = p.fns[fid]
    np_ = pops(p, vn, table)
    lanes = target == "simd"
    def make(dec): return Ex(p, cs, models, dec, den.opts(max_dec=60, signum_nonzero=False))
    def run(ex):
        ex.ghost["lanes"] = lanes
        if vn == "PolyEval":
            if deg is None:
                deg_ = var("i.deg"); ex.ints.add(deg_); ex.nn.add(deg_); horner(ex)
            else: deg_ = deg
            ex.ghost["degree"] = deg_
        L = var("i.L"); ex.ints.add(L); ex.nn.add(L)
        consts, nc, npar, ncache = base_regions(ex, p, vn)
        ins = make_instr(ex, p, vn)
        arg = ins.f[0] if ins.f else None
        # precondition: enough operands
        ex.assume(mk("le", num(np_), L))
        env = {"const": lambda k: fn("mem:const", ex.nf(k)),
               "cache": lambda k: fn("mem:cache", ex.nf(k)), "param": lambda k: fn("mem:param", ex.nf(k))}
        problems = []; st = {"n": 0}
        if target in ("inline", "heap"):
            plen = npar
            params = Ptr(Cell(Region("param", plen, arr_init("param"))))
            if vn == "LoadParam":
                def prm(k):
                    return fn("mem:param", ex.nf(k)) if ex.branch(ex.cmp("lt", ex.nf(k), ex.nf(plen))) else ZERO
                env["param"] = prm
            stackv = None
            def cb(ex):
                st["n"] += 1
                if st["n"] == 2: raise BodyDone()
                fr = ex.frame
                ex.ghost["L"] = L
                if target == "inline":
                    cand = len_locals(ex, p, fr)
                    st["len"] = cand; ex_set_len(fr, cand, L)
                    if len(ex.ghost.get("regions", [])) < 2: raise Unsupported("stack memory not recognised")
                else:
                    stackv.val.clear(); stackv.reads.clear(); stackv.writes.clear(); stackv.len = L
                    if not ex.ghost.get("cleared"): problems.append("the stack is not emptied before the first instruction")
                return models.some(ex, Ptr(Cell(ins)))
            ev = eval_struct(ex, p, cb, consts)
            if target == "inline":
                try: ex.run(fn_, [Ptr(Cell(ev)), params]); problems.append("loop left early")
                except BodyDone: pass
                fr = st["frame"] if "frame" in st else ex.stack_last
                regs = ex.ghost["regions"]
                stack = next((r for r in regs if any(isinstance(k, int) for k in r.reads + r.writes)), None)
                cache = next((r for r in regs if r is not stack), None)
                if stack is None: stack = Region("none", None, raw_init)
                newlen = fr["L"][st["len"]].v
                cname = "mem:" + (cache.name if cache else "?")
                env["cache"] = lambda k: fn(cname, ex.nf(k))
            else:
                stackv = Region("stack", ZERO, raw_init, vec=True)
                cache = Region("cache", ncache, arr_init("cache"))
                try: ex.run(fn_, [Ptr(Cell(ev)), params, Ptr(Cell(stackv)), Ptr(Cell(cache))]); problems.append("loop left early")
                except BodyDone: pass
                stack = stackv; newlen = stack.len
            aux = [consts, params.c.v]
        else:
            ex.ghost["L"] = L
            stack = Region("stack", None if target == "simd" else var("i.cap"), raw_init)
            if target == "scalar": ex.ints.add(var("i.cap")); ex.assume(mk("lt", L, var("i.cap")))
            lenc = Cell(L)
            i0 = var("i.pt"); ex.ints.add(i0); ex.nn.add(i0)
            npts = var("i.npts"); ex.ints.add(npts); ex.nn.add(npts); ex.assume(mk("lt", tm.add(i0, num(3)) if lanes else i0, npts))
            if vn == "LoadParam": ex.assume(mk("lt", var("i.c"), npar))
            def colinit(ex, rg, k):
                k = k if isinstance(k, T) else num(k)
                return Ptr(Cell(Region("col", npts, lambda ex, r, j, k=k: fn("mem:col", ex.nf(k), ex.nf(j if isinstance(j, T) else num(j))))))
            cols = Region("cols", npar, colinit)
            cache = Region("cache", ncache, (lambda ex, rg, k: V4([fn("mem:cache", ex.nf(k), num(j)) for j in range(4)])) if lanes else arr_init("cache"))
            aux = [consts, cols]
            if target == "simd":
                sc = Region("sconst", nc, arr_init("const", True)); aux.append(sc)
                A = {"instr": ins, "stack": Ptr(Cell(stack), (("ri", 0),)), "len": Ptr(lenc), "cache": Ptr(Cell(cache)), "cols": Ptr(Cell(cols)), "sc": Ptr(Cell(sc)), "c": Ptr(Cell(consts)), "pt": i0}
                order = simd_order(p, fn_)
            else:
                A = {"instr": ins, "stack": Ptr(Cell(stack)), "len": Ptr(lenc), "cache": Ptr(Cell(cache)), "cols": Ptr(Cell(cols)), "c": Ptr(Cell(consts)), "pt": i0}
                order = scalar_order(p, fn_)
            ex.run(fn_, [A[k] for k in order])
            newlen = lenc.v
        # ---- expected state
        res = []
        if lanes:
            opv = [[var(f"st{k - np_}_{j}") for k in range(np_)] for j in range(4)]
            exp = []
            for j in range(4):
                env["cache"] = lambda k, j=j: fn("mem:cache", ex.nf(k), num(j))
                env["param"] = lambda k, j=j: fn("mem:col", ex.nf(k), ex.nf(tm.add(i0, num(j))))
                if "horner_end" in ex.ghost: ex.ghost["horner_end"] = var(f"end{j}")
                e = spec(ex, p, vn, opv[j], arg, env, table)
                exp.append(e)
            exp = [V4([exp[j][i] for j in range(4)]) for i in range(len(exp[0]))]
        else:
            if target == "scalar": env["param"] = lambda k: fn("mem:col", ex.nf(k), ex.nf(i0))
            exp = spec(ex, p, vn, [var(f"st{k - np_}") for k in range(np_)], arg, env, table)
        eff = len(exp) - np_
        d = ex.poly_of(tm.sub(ex.nf(ex.num_of(newlen)), L))
        if d is None or {k: v for k, v in d.items() if v} != ({(): Fraction(eff)} if eff else {}): problems.append(f"stack height changes by {tm.show(tm.sub(ex.num_of(newlen), L))}, expected {eff}")
        for i, e in enumerate(exp):
            k = i - np_
            got = stack.val.get(k)
            if got is None: got = stack_value(ex, k) if k < 0 else None
            if got is None: problems.append(f"slot L+{k} not written"); continue
            if lanes:
                for a_, b_ in zip(e.l, got.l if isinstance(got, V4) else [got] * 4): res.append((f"stack[L{k:+d}]", a_, b_))
            else: res.append((f"stack[L{k:+d}]", e, got))
        if vn == "StoreCached":
            ck = ex.nf(arg)
            got = cache.val.get(ck) if cache is not None and ck in cache.writes else None
            if got is None: problems.append("cache slot not written")
            else:
                top = stack_value(ex, -1)
                for a_, b_ in (zip(top.l, got.l) if lanes else [(top, got)]): res.append(("cache", a_, b_))
            if any(k is not ck for k in cache.writes): problems.append("another cache slot written")
        elif cache is not None and cache.writes: problems.append("writes to the cache")
        for k in stack.reads:
            if not isinstance(k, int): problems.append(f"stack read at {tm.show(k)}")
            elif k < -np_: problems.append(f"stack read below the operands (L{k:+d}, {np_} operands)")
        for k in stack.writes:
            if not isinstance(k, int): problems.append(f"stack write at {tm.show(k)}")
            elif k < -np_: problems.append(f"stack write below the operands (L{k:+d})")
            elif k >= max(0, eff): problems.append(f"stack write above the declared height (L{k:+d})")
        for r in aux:
            if r.writes: problems.append(f"writes to {r.name}")
        problems += ex.ghost.get("viol", []) + ex.ghost.get("horner_bad", [])
        res += ex.ghost.get("horner_obl", [])
        return res, problems
    # capture frames: patch loop to remember the frame of fn_
    def run3(ex):
        oloop = ex.loop
        def loop(fr, b):
            if fr["fn"] is fn_: ex.stack_last = fr
            return oloop(fr, b)
        ex.loop = loop
        return run(ex)
    return explore(make, run3, 6000, budget)
def len_locals(ex, p, fr):
    """the local holding the stack height: a usize variable that is 0 before the first instruction"""
    b = fr["body"]; c = []
    for n, l in b.get("vars", []):
        if l < len(fr["L"]) and p.types[b["locals"][l]]["k"] == "uint" and p.types[b["locals"][l]].get("n", "").lower() == "usize" and fr["L"][l].v == 0 and fr["L"][l].v is not False: c.append((n, l))
    for n, l in c:
        if n == "len": return l
    if len(c) == 1: return c[0][1]
    raise Unsupported("stack height variable not recognised")
def ex_set_len(fr, l, v): fr["L"][l].v = v
def simd_order(p, fn_):
    b = fn_["body"]; out = []; nslice = 0
    for t in b["locals"][1:b["argc"] + 1]:
        out.append(arg_role(p, t))
    return out
def scalar_order(p, fn_): 
    b = fn_["body"]; r = [arg_role(p, t) for t in b["locals"][1:b["argc"] + 1]]
    # two mutable f64 slices: stack first, cache second
    seen = False
    for i, x in enumerate(r):
        if x == "mslice":
            r[i] = "cache" if seen else "stack"; seen = True
    return r
def arg_role(p, t):
    t = p.types[t]; k = t["k"]
    if k == "adt": return "instr"
    if k == "uint": return "pt"
    if k == "ptr": return "stack"
    e = p.types[t["e"]]
    if e["k"] == "uint": return "len"
    if e["k"] == "slice":
        x = p.types[e["e"]]
        if x["k"] == "ref": return "cols"
        if x["k"] == "adt": return "cache" if t["m"] else "sc"
        if x["k"] == "float": return "mslice" if t["m"] else "c"
    raise Unsupported("argument role")

# ------------------------------------------------------------------ judging
def undefined_everywhere(ex, t, rnd):
    """t has no value at any sampled point of the path"""
    if t is tm.NAN: return True
    vs = tm.free_vars(ex.nf(t))
    for f in ex.facts: vs |= tm.free_vars(ex.nf(f))
    vs = sorted(vs, key=lambda v: v.id); seen = 0
    for i in range(300):
        env = H.sample_env(vs, ex, rnd, i)
        if not H.facts_ok(ex, env): continue
        seen += 1
        try: tm.neval(ex.nf(t), dict(env)); return False
        except Exception: pass
        if seen > 12: break
    return True
def judge(ex, e, g, rnd):
    e = ex.nf(e); g = ex.nf(ex.num_of(g)) if not isinstance(g, T) else ex.nf(g)
    if e is g: return H.PROVED, "", None
    if e is tm.NAN or g is tm.NAN:
        o = g if e is tm.NAN else e
        if has_unint(o): return H.REFUTED, f"{'no value' if e is tm.NAN else tm.show(e)[:80]} specified, {tm.show(g)[:80]} computed", None
        if undefined_everywhere(ex, o, rnd): return H.PROVED, "", None
        return H.REFUTED, f"{'no value' if e is tm.NAN else tm.show(e)[:80]} specified, {tm.show(g)[:80]} computed", None
    return H.judge(ex, e, g, rnd)
def has_unint(t):
    if t.op == "fn" and str(t.a[0]).startswith("m:"): return True
    return any(has_unint(x) for x in t.a if isinstance(x, T))
