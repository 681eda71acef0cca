"""The compiler: contracts of Compiler::compile_expr per expression kind.

compile_expr(e) appends to the instruction list a program that, run on any stack, leaves the stack unchanged below and the
value denoted by e on top (or compile_expr fails).  The real body (with its helpers) runs on a lazily refined expression of each
kind; recursive calls on subexpressions are replaced by that contract (a CHUNK element pushing the subexpression's value, plus an
arbitrary constant); the emitted list is then executed by the instruction contracts of vm.py."""
import random
from . import term as tm, sym, models, den, vm, harness as H
from .term import T, num, mk, var, fn, ZERO, ONE
from .sym import Ex, explore, Adt, Tup, VecV, Ptr, ArcV, BoxV, Sym, SymV, Cell, MapV, Opaque, UNIT, Unsupported, Infeasible, Panic

CO = "symb_anafis::evaluator::compiler::Compiler"
CM = "symb_anafis::evaluator::compiler::Compiler::<'ctx>::"
TC = "symb_anafis::evaluator::compiler::Compiler::<'_>::"
def find(p, name):
    """a Compiler method by its plain name"""
    for f in p.fns:
        d = f["def"]
        if "evaluator::compiler" in d and "Compiler" in d and d.endswith("::" + name) and "body" in f: return f
    return None
def defs(p, name): return {f["def"] for f in p.fns if "evaluator::compiler" in f["def"] and "Compiler" in f["def"] and f["def"].endswith("::" + name)}
class Chunk:
    def __init__(self, e): self.e = e
    def __repr__(self): return "CHUNK"
def cfield(ex, name):
    ty = ex.prog.adt(CO); ns = [n for n, _ in ex.prog.types[ty]["v"][0]["f"]]
    return ns.index(name)
def get_self(ex, a): return ex.force(ex.load(a))
def self_ptr(ex, a):
    p = ex.force(a)
    while isinstance(ex.force(ex.load(p)), Ptr): p = ex.force(ex.load(p))
    return p
def c_compile(ex, f, a):
    """recursive call: contract"""
    if den.strip(ex, a[1]) is den.strip(ex, ex.ghost["in"]) or den.keyof(ex, den.strip(ex, a[1])) == "IN": raise Unsupported("call on the expression itself")
    sp = self_ptr(ex, a[0]); s = ex.need_adt(ex.load(sp)); fs = list(s.f)
    if ex.choose(2, "sub-expression compiles") == 1:
        return models.err(ex, Opaque("error"))
    i, c = cfield(ex, "instructions"), cfield(ex, "constants")
    fs[i] = VecV(ex.need_vec(fs[i]).e + (Chunk(a[1]),))
    v = var(ex.fresh_id("kc")); fs[c] = VecV(ex.need_vec(fs[c]).e + (v,))
    ex.store(sp, Adt(s.ty, s.var, fs))
    ty = ex.prog.types[f["body"]["locals"][0]]
    return models.ok(ex, UNIT)
def c_tryconst(ex, f, a):
    v = den.strip(ex, a[0]); k = den.kind_of(ex, v)
    if k is not None and ex.prog.types[k.ty]["v"][k.var]["n"] == "Number": return models.some(ex, k.f[0])
    key = ("const", den.keyof(ex, v))
    if key not in ex.ghost: ex.ghost[key] = ex.choose(2, "constant")
    if ex.ghost[key] == 1: return models.none(ex)
    return models.some(ex, ex.nf(den.expand(ex, den.ph(ex, v))))
def c_expensive(ex, f, a): return ex.choose(2, "expensive") == 0
def contracts(p):
    c = dict(den.base_contracts(p))
    for n, h in (("compile_expr", c_compile), ("try_eval_const", c_tryconst), ("is_expensive", c_expensive), ("add_const", c_addconst)):
        for d in defs(p, n): c[d] = h
    c["symb_anafis::core::known_symbols::get_constant_value_by_id"] = c_constval
    c["symb_anafis::core::known_symbols::is_known_constant_by_id"] = lambda ex, f, a: constval(ex, a[0]) is not None
    c["symb_anafis::core::unified_context::Context::get_user_fn_by_id"] = lambda ex, f, a: models.none(ex) if ex.choose(2, "user fn") == 0 else _unsup()
    old = {}
    def mget(ex, f, a):
        v = ex.deref_all(a[0])
        if isinstance(v, Opaque) and v.what == "cse":
            if ex.choose(2, "cse") == 1: return models.none(ex)
            e = Sym(ex.fresh_id("cached"), den.lay(p).EX); s = var(ex.fresh_id("slot")); ex.ints.add(s); ex.nn.add(s)
            ex.ghost.setdefault("cache", {})[s] = e
            ex.ghost["cached"] = e
            return models.some(ex, Ptr(Cell(Tup([e, s]))))
        if isinstance(v, Opaque) and v.what == "params":
            s = models_sym(ex, a[1])
            if ex.choose(2, "parameter") == 1: return models.none(ex)
            key = ("param", s.id); i = ex.ghost.get(key)
            if i is None:
                i = var("p:" + s.id); ex.ints.add(i); ex.nn.add(i); ex.ghost[key] = i; ex.ghost.setdefault("params", {})[i] = s
            return models.some(ex, Ptr(Cell(i)))
        return NotImplemented
    def minsert(ex, f, a):
        v = ex.deref_all(a[0])
        if isinstance(v, Opaque) and v.what == "cse":
            t = a[2]; ex.ghost.setdefault("inserted", []).append((a[1], t.f[0], t.f[1])); return models.none(ex)
        return NotImplemented
    for f in p.fns:
        d = f["def"]
        if d.startswith("std::collections::HashMap::<") and d.endswith("::get"): c[d] = mget
        if d.startswith("std::collections::HashMap::<") and d.endswith("::insert"): c[d] = minsert
    return c
def _unsup(): raise Infeasible("user function")
def models_sym(ex, v):
    v = ex.deref_all(v)
    return v.s if isinstance(v, sym.IdV) else v
CONSTS = {"pi": tm.PI, "PI": tm.PI, "Pi": tm.PI, "e": fn("exp", ONE), "E": fn("exp", ONE)}
def constval(ex, a):
    s = models_sym(ex, a); nm, _ = ex.sym_name(s)
    for n in ("pi", "e", "PI", "Pi", "E"):
        if nm is None and ex.sym_eq(s, ex.known_symbol(n)): return den.sym_term(ex, s)
        if nm == n: return den.sym_term(ex, s)
    return None
def c_constval(ex, f, a):
    v = constval(ex, a[0])
    return models.none(ex) if v is None else models.some(ex, v)
def c_addconst(ex, f, a):
    """contract: the returned index holds the value"""
    sp = self_ptr(ex, a[0]); s = ex.need_adt(ex.load(sp)); fs = list(s.f); c = cfield(ex, "constants")
    l = ex.need_vec(fs[c]).e; fs[c] = VecV(l + (a[1],)); ex.store(sp, Adt(s.ty, s.var, fs))
    return len(l)
def mkcompiler(ex, p):
    ty = p.adt(CO); fs = []
    for n, t in p.types[ty]["v"][0]["f"]:
        k = p.types[t]
        if n == "instructions": fs.append(VecV([Opaque("PREFIX")]))
        elif n == "constants": fs.append(VecV([var("k0"), var("k1")]))
        elif n == "param_ids": fs.append(VecV([sym.IdV(SymV("pa")), sym.IdV(SymV("pb"))]))
        elif n == "param_index": fs.append(Opaque("params"))
        elif n == "cse_cache": fs.append(Opaque("cse"))
        elif k["k"] == "uint":
            v = var("f." + n); ex.ints.add(v); ex.nn.add(v); fs.append(v)
        elif n == "const_map": fs.append(MapV())
        else: fs.append(ex.fresh(t, "f_" + n))
    return Adt(ty, 0, fs)
class StackFault(Exception): pass
def run_vm(ex, p, prog, consts, table):
    """instruction contracts over the emitted list -> (stack, cache stores)"""
    st = []; cache = dict(ex.ghost.get("cache", {})); stores = []
    T_ = lambda e: den.expand(ex, den.ph(ex, e))
    for ins in prog:
        if isinstance(ins, Chunk): st.append(T_(ins.e)); continue
        ins = ex.need_adt(ins); vn = p.types[ins.ty]["v"][ins.var]["n"]
        arg = ins.f[0] if ins.f else None
        n = vm.pops(p, vn, table)
        if n is None: raise Unsupported("no contract for " + vn)
        if len(st) < n: raise StackFault(f"{vn} needs {n} operands, {len(st)} on the stack")
        ops = st[len(st) - n:]; del st[len(st) - n:]
        def cst(k):
            k = ex.nf(ex.num_of(k))
            if not tm.isnum(k): raise Unsupported("constant index")
            i = int(k.a[0])
            if not 0 <= i < len(consts): raise StackFault(f"constant {i} of {len(consts)}")
            return ex.nf(ex.num_of(consts[i]))
        def prm(k):
            for i, s in ex.ghost.get("params", {}).items():
                if ex.nf(i) is ex.nf(ex.num_of(k)): return den.sym_term(ex, s)
            k = ex.nf(ex.num_of(k))
            if tm.isnum(k) and int(k.a[0]) < 2: return den.sym_term(ex, SymV(["pa", "pb"][int(k.a[0])]))
            raise StackFault("unknown parameter index")
        def cch(k):
            for i, e in cache.items():
                if ex.nf(i) is ex.nf(ex.num_of(k)): return e if isinstance(e, T) else T_(e)
            raise StackFault("cache slot that was not stored")
        env = {"const": cst, "param": prm, "cache": cch}
        if vn == "StoreCached": cache[ex.nf(ex.num_of(arg))] = ops[0]; stores.append((ex.num_of(arg), ops[0]))
        if vn == "PolyEval":
            d = cst(arg)
            if not tm.isnum(d): raise Unsupported("symbolic degree")
            ex.ghost["degree"] = int(d.a[0])
            arg = ex.num_of(arg)
        if vn in vm.FUNC: st.append(fn(vm.FUNC[vn], *ops)); continue          # what the instruction computes is the executors' obligation
        st += vm.spec(ex, p, vn, ops, arg, env, table)
    return st, stores
def setup(ex, ly, kind, arity, name=None, variant=None):
    IN = Sym("IN", ly.EX); ex.ghost["in"] = IN
    a = ex.refine_to(IN, 0); k = ex.force(a.f[ly.ef["kind"]]); ka = ex.refine_to(k, ly.kv[kind])
    if kind in ("Sum", "Product"): ex.ghost[("veclen", ka.f[0].id)] = (arity, arity)
    if kind == "FunctionCall":
        i, j = ly.kf[kind].index("name"), ly.kf[kind].index("args")
        ex.ghost[("veclen", ka.f[j].id)] = (arity, arity)
        if name is not None:
            s = ex.force(ka.f[i]); ok = ex.sym_eq(s, ex.known_symbol(name))
            if not ok: raise Infeasible("name")
    if kind == "Poly":
        po = ex.need_adt(den.strip(ex, ka.f[0])); ts = po.f[ly.pf["terms"]]
        n, pows = variant
        ex.ghost[("veclen", ts.id)] = (n, n)
        l = []
        for t, q in zip(ex.need_vec(ts).e, pows):
            t = ex.force(t)
            ex.assume(ex.cmp("eq", ex.num_of(t.f[0]), num(q)))
            c = ex.num_of(t.f[1]); ex.assume(mk("ne", c, ZERO)) if False else None
    return IN, ka
def explore_kind(p, cs, kind, arity, table, name=None, variant=None, max_paths=4000, budget=40.0, entry="compile_expr"):
    ly = den.lay(p); f = find(p, entry)
    if f is None: return None
    def make(dec): return Ex(p, cs, models, dec, den.opts(max_dec=90, max_steps=120000, signum_nonzero=False))
    def run(ex):
        IN, ka = setup(ex, ly, kind, arity, name, variant)
        C = Cell(mkcompiler(ex, p))
        ex.ghost["entry"] = True
        r = ex.run(f, [Ptr(C), Ptr(Cell(IN))])
        return IN, ka, C, r
    return explore(make, run, max_paths, budget)
def judge_kind(p, r, table, kind, rnd, structural=False):
    """-> status, why, paths"""
    st, why, n, fails = H.PROVED, "", 0, 0
    def worse(s, w):
        nonlocal st, why
        if st != H.REFUTED and s != H.PROVED: st, why = s, w
    for e, _ in r.unsupported: worse(H.UNDECIDED, "unsupported: " + e)
    for e, _ in r.panics: worse(H.UNDECIDED, "panic path: " + str(e))
    if r.cut: worse(H.UNDECIDED, f"cut {r.cut[0][0]}")
    for ex, (IN, ka, C, res) in r.paths:
        n += 1
        try:
            den.finish(ex)
            rv = ex.need_adt(res); vn = p.types[rv.ty]["v"][rv.var]["n"]
            if vn == "Err": fails += 1; continue
            comp = ex.need_adt(C.v); ins = ex.need_vec(comp.f[cfield(ex, "instructions")]).e; consts = ex.need_vec(comp.f[cfield(ex, "constants")]).e
            if not ins or not isinstance(ins[0], Opaque): worse(H.REFUTED, "instructions emitted before were removed"); continue
            cn = ("const", "IN")
            try: stack, stores = run_vm(ex, p, ins[1:], consts, table)
            except StackFault as e: worse(H.REFUTED, str(e)); continue
            if len(stack) != 1: worse(H.REFUTED, f"leaves {len(stack)} values: {[show(ex, p, i) for i in ins[1:]]}"); continue
            if structural:
                f0 = var("f.cache_size"); now = ex.num_of(comp.f[cfield(ex, "cache_size")])
                if stores and H.judge(ex, ex.nf(tm.add(f0, ONE)), ex.nf(now), rnd)[0] != H.PROVED: worse(H.REFUTED, "cache_size does not cover the new slot")
                continue
            if isinstance(ka, Adt): want = den.expand(ex, den.kind_den(ex, ka))
            got = stack[0]
            s, w, _ = vm.judge(ex, want, got, rnd)
            if s == H.REFUTED and w.startswith("left side undefined"): s = H.PROVED
            if s == H.REFUTED: w += " in " + str([show(ex, p, i) for i in ins[1:]])
            worse(s, f"{w}")
            for slot, v in stores:
                # the slot number is new, and the remembered expression is the one stored
                if not any(ex.nf(ex.num_of(sl)) is ex.nf(slot) for _, _, sl in ex.ghost.get("inserted", [])): worse(H.UNDECIDED, "stored without being remembered")
            for h, e, sl in ex.ghost.get("inserted", []):
                want2 = den.expand(ex, den.ph(ex, e))
                g = next((v for s_, v in stores if ex.nf(s_) is ex.nf(ex.num_of(sl))), None)
                if g is None: worse(H.REFUTED, "a common subexpression is remembered in a slot that is not stored"); continue
                s, w, _ = vm.judge(ex, want2, g, rnd)
                if s == H.REFUTED and w.startswith("left side undefined"): s = H.PROVED
                worse(s, f"remembered subexpression: {w} {tm.show(want2)[:80]} stored {tm.show(g)[:80]}")
                f0 = var("f.cache_size")
                if ex.nf(ex.num_of(sl)) is not ex.nf(f0): worse(H.UNDECIDED, "slot number")
                now = ex.num_of(comp.f[cfield(ex, "cache_size")])
                s2, _, _ = H.judge(ex, ex.nf(tm.add(f0, ONE)), ex.nf(now), rnd)
                if s2 != H.PROVED: worse(H.REFUTED, "cache_size does not cover the new slot")
        except Infeasible: continue
        except den.Malformed: continue
        except Unsupported as e: worse(H.UNDECIDED, "unsupported: " + str(e))
    return st, why or f"{n} paths ({fails} of them errors)", n - fails
def show(ex, p, i):
    if isinstance(i, Chunk): return "<" + tm.show(den.expand(ex, den.ph(ex, i.e)))[:40] + ">"
    i = ex.force(i)
    if not isinstance(i, Adt): return str(i)
    return p.types[i.ty]["v"][i.var]["n"] + ("(" + tm.show(ex.nf(ex.num_of(i.f[0]))) + ")" if i.f else "")

# ------------------------------------------------------------------ optimisation passes over arbitrary instruction windows
def pass_contracts(p):
    c = dict(vm.contracts(p)); return c
def ev_def(p, name):
    for f in p.fns:
        if "evaluator::CompiledEvaluator" in f["def"] and f["def"].endswith("::" + name) and "body" in f: return f
    return None
def explore_pass(p, cs, name, n, max_paths=20000, budget=60.0, first=None, max_dec=120):
    f = ev_def(p, name)
    if f is None: return None
    ity = p.adt(vm.INS); b = f["body"]
    def make(dec): return Ex(p, cs, models, dec, den.opts(max_dec=max_dec, max_steps=60000, signum_nonzero=False))
    def run(ex):
        ins = [Sym(f"in{i}", ity) for i in range(n)]
        if first is not None and n: ex.refine_to(ins[0], first)
        nc = var("i.nconst"); ex.ints.add(nc); ex.nn.add(nc)
        consts = sym.Region("consts", nc, vm.arr_init("const"), vec=True)
        C = Cell(VecV(ins)); K = Cell(consts); S = Cell(var("i.ncache")); ex.ints.add(S.v); ex.nn.add(S.v)
        a = []
        for t in b["locals"][1:b["argc"] + 1]:
            k = p.types[t]; e = p.types[k["e"]] if "e" in k else None
            if k["k"] == "adt": a.append(C.v)
            elif e["k"] == "uint": a.append(Ptr(S))
            elif e["k"] == "slice": a.append(Ptr(C) if p.types[e["e"]]["k"] == "adt" else Ptr(K))
            elif e["k"] == "adt": a.append(Ptr(C) if p.types[e["a"][0]]["k"] == "adt" else Ptr(K))
            else: raise Unsupported("argument")
        r = ex.run(f, a)
        return ins, (r if p.types[b["locals"][0]]["k"] in ("adt", "uint") else C.v), K.v, S.v
    return explore(make, run, max_paths, budget)
class Fault(Exception): pass
def degree_of(ex, d):
    """the degree a path's facts determine (the coefficient loop ran that often), or None"""
    d = ex.nf(d)
    if tm.isnum(d): return int(d.a[0])
    z = var("\0deg"); fs = []
    for f, v in ex.facts.items():
        g = tm.subst(ex.nf(f), {d: z})
        if tm.free_vars(g) == {z}: fs.append((g, v))
    ok = [k for k in range(-3, 70) if all(H.holds(g, {z: k}) in (v, None) for g, v in fs)]
    if ok and max(ok) < 0: raise Infeasible("negative degree")
    if ok and min(ok) > 8: raise Infeasible("degree above the stated bound")
    return ok[0] if len(ok) == 1 else None
def runlist(ex, p, prog, stack, cache, consts_new, table, strict=False):
    """-> (stack, cache, reads-before-store); stack grows downwards as needed"""
    st = list(stack); low = [0]
    for ins in prog:
        v = ex.force(ins)
        if not isinstance(v, Adt):          # an instruction the pass treats like any other: some operation on the top of the stack
            if not strict: raise Unsupported("instruction not examined")
            if not st: low[0] += 1; st.insert(0, var(f"st-{low[0]}"))
            st[-1] = fn("op:" + v.id, st[-1]); continue
        vn = p.types[v.ty]["v"][v.var]["n"]; arg = v.f[0] if v.f else None
        n = vm.pops(p, vn, table)
        while len(st) < n:
            low[0] += 1; st.insert(0, var(f"st-{low[0]}"))
        ops = st[len(st) - n:]; del st[len(st) - n:]
        def cst(k):
            k = ex.nf(ex.num_of(k))
            for i, x in consts_new:
                if i is None: raise Fault("constant index out of range")
                if ex.nf(i) is k: return x
            return fn("mem:const", k)
        def cch(k):
            k = ex.nf(ex.num_of(k))
            for i, x in cache:
                if ex.nf(i) is k: return x
            for i, x in cache:
                d = ex.cmp("eq", ex.nf(i), k)
                if not isinstance(d, bool) and ex.facts.get(ex.simp(d)) is not False: raise Unsupported("cache slots not compared")
            if strict: raise Infeasible("load before store")
            return fn("mem:cache", k)
        env = {"const": cst, "param": lambda k: fn("mem:param", ex.nf(ex.num_of(k))), "cache": cch}
        if vn == "StoreCached": cache = [(ex.nf(ex.num_of(arg)), ops[0])] + [(i, x) for i, x in cache if ex.nf(i) is not ex.nf(ex.num_of(arg))]
        if vn == "PolyEval":
            d = degree_of(ex, cst(arg))
            if d is None: ex.ghost["degree"] = var("i.deg"); ex.ghost["horner_end"] = fn("poly", ex.num_of(arg), ops[0])
            else: ex.ghost["degree"] = d
        st += vm.spec(ex, p, vn, ops, ex.num_of(arg) if arg is not None else None, env, table)
    return st, cache, low[0]
def judge_pass(p, r, table, rnd, keep_cache=True, cuts_ok=None):
    st, why, n, changed = H.PROVED, "", 0, 0
    def worse(s, w):
        nonlocal st, why
        if st != H.REFUTED and s != H.PROVED: st, why = s, w
    for e, _ in r.unsupported: worse(H.UNDECIDED, "unsupported: " + e)
    for e, pex in r.panics:
        if str(e).startswith("index") and pex is not None and any(f.op in ("lt", "le") and "i.nconst" in tm.show(f) for f in pex.facts): continue      # precondition: constant indices are in range
        worse(H.UNDECIDED, "panic path: " + str(e))
    if r.cut and not all(cuts_ok and c[0] == cuts_ok for c in r.cut): worse(H.UNDECIDED, f"cut {r.cut[0][0]}")
    for ex, (ins, out, consts, cs_) in r.paths:
        n += 1
        try:
            out = list(ex.need_vec(out).e); a = list(ins)
            if len(a) == len(out) and all(x is y or sameins(ex, x, y) or ex.force(x) is ex.force(y) for x, y in zip(a, out)): continue
            sm = lambda x, y: not isinstance(ex.force(x), Adt) and (x is y or ex.force(x) is ex.force(y))
            i = 0
            while i < len(a) and i < len(out) and sm(a[i], out[i]): i += 1
            j = 0
            while j < len(a) - i and j < len(out) - i and sm(a[-1 - j], out[-1 - j]): j += 1
            A, B = a[i:len(a) - j], out[i:len(out) - j]
            if not A and not B: continue
            changed += 1
            if isinstance(consts, VecV): new = [(num(k), ex.num_of(v)) for k, v in enumerate(consts.e)] + [(None, None)]
            else:
                new = [(k, ex.num_of(consts.val[k] if k in consts.val else None)) for k in consts.writes] if consts.writes else []
                new = [(k if isinstance(k, T) else num(k), v) for k, v in new]
                for k, _ in new:
                    if ex.simp(ex.cmp("lt", k, var("i.nconst"))) is True: worse(H.REFUTED, "overwrites a constant")
            s1, c1, l1 = runlist(ex, p, A, [], [], [], table, not keep_cache)
            try: s2, c2, l2 = runlist(ex, p, B, [], [], new, table, not keep_cache)
            except Infeasible as e:
                if "degree" in str(e): continue
                worse(H.REFUTED, f"{[nm(ex, p, x) for x in A]} -> {[nm(ex, p, x) for x in B]}: a cache slot is loaded before it is stored"); continue
            except Fault as e: worse(H.REFUTED, f"{[nm(ex, p, x) for x in A]} -> {[nm(ex, p, x) for x in B]}: {e}"); continue
            if not keep_cache:
                for x in B:
                    x = ex.force(x)
                    if isinstance(x, Adt) and p.types[x.ty]["v"][x.var]["n"] in ("StoreCached", "LoadCached") and ex.simp(ex.cmp("lt", ex.nf(ex.num_of(x.f[0])), ex.nf(ex.num_of(cs_)))) is False: worse(H.REFUTED, "cache slot beyond the declared size")
            m = max(l1, l2)
            s1 = [var(f"st-{q}") for q in range(m, l1, -1)] + s1; s2 = [var(f"st-{q}") for q in range(m, l2, -1)] + s2
            txt = f"{[nm(ex, p, x) for x in A]} -> {[nm(ex, p, x) for x in B]}"
            if len(s1) != len(s2): worse(H.REFUTED, f"stack height: {txt}"); continue
            if l2 > l1: worse(H.REFUTED, f"takes more operands: {txt}"); continue
            for x, y in zip(s1, s2):
                s, w, _ = vm.judge(ex, x, y, rnd)
                if s == H.REFUTED and w.startswith("left side undefined"): s = H.PROVED
                worse(s, f"{txt}: {w}: {tm.show(ex.nf(x))[:60]} became {tm.show(ex.nf(y))[:60]}")
            if keep_cache:
                d1 = {ex.nf(k): v for k, v in c1}; d2 = {ex.nf(k): v for k, v in c2}
                for k in d1.keys() | d2.keys():
                    x = d1.get(k, fn("mem:cache", k)); y = d2.get(k, fn("mem:cache", k))
                    s, w, _ = vm.judge(ex, x, y, rnd); worse(s, f"{txt}: cache {w}")
        except Infeasible: continue
        except Unsupported as e: worse(H.UNDECIDED, "unsupported: " + str(e) + str([nm(ex, p, x) for x in ins]))
    return st, why or f"{n} paths, {changed} rewrites", (n, changed)
def sameins(ex, x, y):
    x, y = ex.force(x), ex.force(y)
    return isinstance(x, Adt) and isinstance(y, Adt) and x.var == y.var and len(x.f) == len(y.f) and all(ex.nf(ex.num_of(u)) is ex.nf(ex.num_of(v)) for u, v in zip(x.f, y.f))
def nm(ex, p, x):
    x = ex.force(x)
    if not isinstance(x, Adt): return "?"
    return p.types[x.ty]["v"][x.var]["n"] + ("(" + tm.show(ex.nf(ex.num_of(x.f[0]))) + ")" if x.f else "")
