"""C07, C08, C09: obligations over the evaluator and the compiler, and the bounded comparison on the real code."""
import random, math, time, collections
import mpmath
from mpmath import mpf
from . import term as tm, mir, sym, models, den, vm, comp, harness as H, replay as R, oracle as O, par, simpdiff
from .term import num, mk, var, fn, ZERO, ONE
from .sym import Ex, explore, Sym, Ptr, Cell, VecV, Adt, BoxV

TG = {"inline": "::evaluate_inline", "heap": "::evaluate_heap", "simd": "::exec_simd_instruction", "scalar": "::exec_scalar_batch_instruction"}
_ST = {}
TRUSTED = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor and std models (slices, raw pointers, Vec, HashMap)", "vf exponential-polynomial normaliser",
           "lane-wise meaning of wide::f64x4", "numeric special functions are uninterpreted here (decided by C15)"]
ASSUME = ["f64 arithmetic treated as real arithmetic", "coefficient snapping below EPSILON = 1e-14 treated as exact"]
def start():
    p = mir.prog(); b = den.base_contracts(p)
    from .props import c02
    t = c02.table(p, b)
    _ST.update(p=p, tab={n: (lo, ev) for n, lo, hi, ev, dv in t}, full=[(n, lo, hi) for n, lo, hi, ev, dv in t])
    return p
def fid(p, tg):
    l = [f["id"] for f in p.fns if f["name"].endswith(TG[tg]) and "body" in f and "evaluator" in f["def"]]
    return l[0] if l else None
# ------------------------------------------------------------------ executors
def w_exec(a):
    tg, vn, values, mem = a
    p, tab = _ST["p"], _ST["tab"]; rnd = random.Random(7)
    t0 = time.time()
    if vm.pops(p, vn, tab) is None: return a, H.UNDECIDED, "no contract for this instruction", time.time() - t0
    try: r = vm.run_variant(p, _ST["vmc"], tab, tg, fid(p, tg), vn)
    except Exception as e: return a, H.UNDECIDED, f"{type(e).__name__} {e}", time.time() - t0
    st, why, n = H.PROVED, "", 0
    def worse(s, w):
        nonlocal st, why
        if st != H.REFUTED and s != H.PROVED: st, why = s, w
    for e, _ in r.unsupported: worse(H.UNDECIDED, "unsupported: " + e)
    for e, _ in r.panics: worse(H.REFUTED if mem and ("index" in str(e) or "overflow" in str(e) or "underflow" in str(e)) else H.UNDECIDED, "panic path: " + str(e))
    if r.cut: worse(H.UNDECIDED, "cut " + str(r.cut[0][0]))
    for ex, (res, prob) in r.paths:
        n += 1
        for q in prob:
            if values or mem: worse(H.REFUTED, q)
        if values:
            for nm, e, g in res:
                try: s, w, _ = vm.judge(ex, e, g, rnd)
                except Exception as e_: s, w = H.UNDECIDED, f"{type(e_).__name__} {e_}"
                worse(s, f"{nm}: {w}: {tm.show(g)[:120] if hasattr(g, 'op') else g} should be {tm.show(e)[:120]}")
    if not n and st == H.PROVED: st, why = H.UNDECIDED, "no path"
    return a, st, why or f"{n} paths", time.time() - t0
def executors(C, targets, values=True, mem=True):
    p = _ST["p"]; _ST["vmc"] = vm.contracts(p)
    tasks = [(tg, vn, values, mem) for tg in targets for vn in vm.variants(p) if fid(p, tg) is not None]
    tasks.sort(key=lambda a: a[1] not in ("Beta", "PolyEval", "SphericalHarmonic"))
    for tg in targets:
        if fid(p, tg) is None: C.notes.append(f"executor {TG[tg]} not found")
        else: C.fns.add(p.fns[fid(p, tg)]["def"])
    for a, st, why, dt in par.run(w_exec, tasks, C):
        C.ob(f"{a[0]}/{a[1]}", st, why); C.solver_s += dt
def refuted(C):
    """after the bounded part: failed obligations that used to hold and that no run of the real code exhibited"""
    for o in C.obs:
        if o.status == H.REFUTED and C.baseline.get(o.name) in (H.PROVED, "bounded"):
            C.violate("obligation:" + o.name, f"obligation {o.name}: {o.why}", {"kind": "obligation", "obligation": o.name, "verifier": o.why}, confirmed=False)
# ------------------------------------------------------------------ compiler
def kinds(tab, full, thorough):
    out = [("Number", 0, None, None), ("Symbol", 0, None, None), ("Div", 0, None, None), ("Pow", 0, None, None), ("Derivative", 0, None, None)]
    out += [("Product", 1, None, None), ("Product", 2, None, None), ("Product", 3, None, None), ("Sum", 1, None, None), ("Sum", 2, None, None)]
    if thorough: out += [("Sum", 3, None, None)]
    out += [("Poly", 0, None, (0, [])), ("Poly", 1, None, (1, [3])), ("Poly", 2, None, (2, [0, 2])), ("Poly", 3, None, (3, [0, 1, 3])), ("Poly", 2, None, (2, [1, 4])), ("Poly", 2, None, (2, [0, 70]))]
    for n, lo, hi in full:
        for k in range(lo, hi + 1): out.append(("FunctionCall", k, n, None))
    for n in ("exp_polar", "sign", "sgn"): 
        if n not in tab: out.append(("FunctionCall", 1, n, None))
    return out
def w_comp(a):
    (kind, ar, name, variant), structural, budget = a
    p, tab = _ST["p"], _ST["tab"]; t0 = time.time()
    try:
        r = comp.explore_kind(p, _ST["coc"], kind, ar, tab, name=name, variant=variant, budget=budget, max_paths=20000)
        if r is None: return a, H.UNDECIDED, "compile_expr not found", time.time() - t0
        st, why, n = comp.judge_kind(p, r, tab, kind, random.Random(1), structural)
    except Exception as e: return a, H.UNDECIDED, f"{type(e).__name__} {e}", time.time() - t0
    return a, st, why, time.time() - t0
BOUND = {"Sum": "sums of the stated number of terms", "Product": "products of the stated number of factors", "Poly": "polynomials with the stated terms"}
def compiler(C, structural=False):
    p = _ST["p"]; _ST["coc"] = comp.contracts(p)
    ks = kinds(_ST["tab"], _ST["full"], C.thorough)
    ks.sort(key=lambda k: (k[0] not in ("Div", "Sum"), k[2] not in ("exp", "ln", "sqrt")))
    budget = 400 if C.thorough else 100
    for a, st, why, dt in par.run(w_comp, [(k, structural, budget) for k in ks], C):
        kind, ar, name, variant = a[0]
        nm = f"compile_expr/{kind}" + (f"/{ar}" if kind in ("Sum", "Product", "FunctionCall") else "") + (f":{name}" if name else "") + (f":{','.join(map(str, variant[1]))}" if variant else "")
        C.ob(nm, st, why, bounded=BOUND.get(kind)); C.solver_s += dt
        f = comp.find(p, "compile_expr")
        if f: C.fns.add(f["def"])
    for n in ("compile_sum", "compile_sum_optimal", "compile_sum_base_term", "compile_product", "compile_expr_with_count", "compile_division", "compile_power", "compile_function_call", "compile_unary_function", "compile_binary_function",
              "compile_ternary_function", "compile_quaternary_function", "compile_unknown_function", "compile_polynomial", "compile_polynomial_slow_path"):
        for d in comp.defs(p, n): C.fns.add(d)
PASSES = [("peephole_optimize", 2, True, None), ("peephole_optimize", 3, True, None), ("fuse_muladd", 3, True, None), ("eliminate_dead_stores", 3, False, None), ("optimize_cache_slots", 3, False, None), ("deduplicate_constants", 1, True, "decisions"), ("deduplicate_constants", 2, True, "decisions")]
def w_pass(a):
    nm, n, keep, cuts, first, budget = a
    p, tab = _ST["p"], _ST["tab"]; t0 = time.time()
    try:
        r = comp.explore_pass(p, _ST["pac"], nm, n, budget=budget, max_paths=200000, max_dec=18 if cuts else 120, first=first)
        if r is None: return a, H.UNDECIDED, "pass not found", 0, time.time() - t0
        st, why, m = comp.judge_pass(p, r, tab, random.Random(1), keep, cuts)
    except Exception as e: return a, H.UNDECIDED, f"{type(e).__name__} {e}", 0, time.time() - t0
    return a, st, why, m[1], time.time() - t0
def passes(C):
    p = _ST["p"]; _ST["pac"] = comp.pass_contracts(p)
    nv = len(vm.variants(p)); tasks = []
    ps = list(PASSES)
    if C.thorough: ps += [("fuse_muladd", 4, True, None), ("eliminate_dead_stores", 4, False, None), ("optimize_cache_slots", 4, False, None)]
    for nm, n, keep, cuts in ps: tasks.append((nm, n, keep, cuts, None, 300))
    if C.thorough: tasks += [("peephole_optimize", 4, True, None, v, 400) for v in range(nv)]
    split = {}
    for a, st, why, ch, dt in par.run(w_pass, tasks, C):
        C.solver_s += dt
        f = comp.ev_def(p, a[0])
        if f: C.fns.add(f["def"])
        nm = f"{a[0]}/{a[1]} instructions"
        if a[4] is None: C.ob(nm, st, why, bounded=f"every window of {a[1]} instructions" + (", polynomial degree <= 8" if a[3] else ""))
        else:
            s = split.setdefault(nm, [H.PROVED, "", 0]); s[2] += 1
            if st != H.PROVED and s[0] != H.REFUTED: s[0], s[1] = st, why
    for nm, (st, why, n) in split.items():
        if n < nv and st == H.PROVED: st, why = H.UNDECIDED, f"{n} of {nv} first instructions"
        C.ob(nm, st, why, bounded="every window of 4 instructions")
# ------------------------------------------------------------------ stack_effect, stack_depth, evaluate
def effects(C):
    p, tab = _ST["p"], _ST["tab"]
    f = next((f for f in p.fns if f["def"].endswith("Instruction::stack_effect") and "body" in f), None)
    if f is None: C.notes.append("stack_effect not found"); return
    C.fns.add(f["def"]); base = den.base_contracts(p)
    for vn in vm.variants(p):
        n = vm.pops(p, vn, tab)
        if n is None: C.ob("stack_effect/" + vn, H.UNDECIDED, "no contract"); continue
        want = {"LoadConst": 1, "LoadParam": 1, "LoadCached": 1, "Dup": 1, "Pop": -1}.get(vn, 1 - n)
        if vn == "Swap": want = 0
        def make(dec): return Ex(p, base, models, dec, den.opts(max_dec=40))
        def run(ex): return ex.run(f, [Ptr(Cell(vm.make_instr(ex, p, vn))) if p.types[f["body"]["locals"][1]]["k"] == "ref" else vm.make_instr(ex, p, vn)])
        r = explore(make, run, 20, 10); st, why = H.PROVED, ""
        if r.unsupported or r.cut or r.panics or not r.paths: st, why = H.UNDECIDED, str(r.unsupported or r.cut or r.panics)[:200]
        for ex, v in r.paths:
            v = ex.nf(ex.num_of(v))
            if not tm.isnum(v) or v.a[0] != want: st, why = H.REFUTED, f"stack_effect is {tm.show(v)}, the instruction changes the height by {want}"
        C.ob("stack_effect/" + vn, st, why)
    # stack_depth: maximum prefix sum of the effects
    g = comp.ev_def(p, "stack_depth")
    if g is None: return
    C.fns.add(g["def"])
    cs = dict(base); cs[f["def"]] = lambda ex, f_, a: ex.ghost["eff"][ex.ghost["ins"].index(next(x for x in ex.ghost["ins"] if x is strip(ex, a[0])))]
    def strip(ex, v):
        while isinstance(v, (Ptr, BoxV)): v = ex.load(v)
        return v
    ity = p.adt(vm.INS)
    for k in range(0, 4):
        def make(dec): return Ex(p, cs, models, dec, den.opts(max_dec=60))
        def run(ex):
            ins = [Sym(f"q{i}", ity) for i in range(k)]; eff = []
            for i in range(k):
                e = var(f"eff{i}"); ex.ints.add(e); ex.assume(mk("le", num(-3), e)); ex.assume(mk("le", e, ONE)); eff.append(e)
            ex.ghost["ins"] = ins; ex.ghost["eff"] = eff
            s = ZERO
            for e in eff: s = tm.add(s, e); ex.assume(mk("le", ZERO, s))          # well-formed programs never go below empty
            return eff, ex.run(g, [Ptr(Cell(VecV(ins)))])
        r = explore(make, run, 2000, 20); st, why = H.PROVED, ""
        if r.unsupported or r.cut or not r.paths: st, why = H.UNDECIDED, str(r.unsupported or r.cut)[:200]
        for e, _ in r.panics: st, why = H.UNDECIDED, "panic " + str(e)
        for ex, (eff, v) in r.paths:
            v = ex.nf(ex.num_of(v)); s = ZERO; hit = tm.prove_eq(v, ZERO) is True
            for e in eff:
                s = tm.add(s, e)
                b = ex.cmp("le", ex.nf(s), v)
                d = b if isinstance(b, bool) else ex.decide(b)
                if d is not True: st, why = (H.REFUTED if d is False else H.UNDECIDED), "declared depth below the depth reached"
                if tm.prove_eq(v, s) is True: hit = True
        C.ob(f"stack_depth/{k} instructions", st, why, bounded=f"programs of {k} instructions")
def dispatch(C):
    """evaluate: the inline buffers are used only for programs that fit them"""
    p = _ST["p"]; C0 = den.base_contracts(p)
    f = next((f for f in p.fns if f["def"].endswith("::evaluate") and "evaluator" in f["def"] and "body" in f), None)
    if f is None or fid(p, "inline") is None: C.notes.append("evaluate not found"); return
    C.fns.add(f["def"]); cs = dict(vm.contracts(p))
    inl = p.fns[fid(p, "inline")]; hp = p.fns[fid(p, "heap")]
    # sizes of the two buffers, from an execution of the inline evaluator
    tab = _ST["tab"]; sizes = {}
    for vn, w in (("LoadConst", "stack"), ("StoreCached", "cache")):
        r = vm.run_variant(p, _ST.get("vmc") or vm.contracts(p), tab, "inline", inl["id"], vn)
        for ex, _ in r.paths:
            rs = ex.ghost.get("regions", [])
            st = next((x for x in rs if any(isinstance(k, int) for k in x.reads + x.writes)), None)
            if w == "stack" and st is not None: sizes["stack"] = st.len
            if w == "cache":
                ca = next((x for x in rs if x is not st), None)
                if ca is not None: sizes["cache"] = ca.len
    if len(sizes) < 2: C.ob("evaluate/dispatch", H.UNDECIDED, "inline buffers not recognised"); return
    log = {}
    def c_inline(ex, f_, a):
        e = ex.need_adt(ex.deref_all(a[0])); ns = [n for n, _ in p.types[e.ty]["v"][0]["f"]]
        ex.ghost["went"] = ("inline", ex.num_of(e.f[ns.index("stack_size")]), ex.num_of(e.f[ns.index("cache_size")])); return var("result")
    def c_heap(ex, f_, a):
        ex.ghost["went"] = ("heap", ex.deref_all(a[3]), ex.deref_all(a[2])); return var("result")
    cs[inl["def"]] = c_inline; cs[hp["def"]] = c_heap
    for f2 in p.fns:
        if f2["def"] in ("std::vec::from_elem", "alloc::vec::from_elem"): cs[f2["def"]] = lambda ex, f_, a: sym.Region("heapcache", ex.num_of(a[1]), lambda ex, rg, k: ZERO, vec=True)
    ity = p.adt(vm.INS)
    def make(dec): return Ex(p, cs, models, dec, den.opts(max_dec=40))
    def run(ex):
        nin = var("i.ninstr"); ex.ints.add(nin); ex.nn.add(nin); ex.assume(mk("lt", ZERO, nin))
        nc = var("i.nconst"); ex.ints.add(nc); ex.nn.add(nc)
        consts = sym.Region("const", nc, vm.arr_init("const"))
        ex.ghost["i0"] = Sym("instr0", ity)
        prog = sym.Region("prog", nin, lambda ex, rg, k: ex.ghost["i0"])
        ty = p.adt(vm.CE); fs = []
        for n, t in p.types[ty]["v"][0]["f"]:
            if n == "instructions": fs.append(BoxV(Cell(prog)))
            elif n == "constants": fs.append(BoxV(Cell(consts)))
            elif p.types[t]["k"] == "uint": v = var("i." + n); ex.ints.add(v); ex.nn.add(v); fs.append(v)
            else: fs.append(sym.Opaque("field:" + n))
        npar = var("i.nparam"); ex.ints.add(npar); ex.nn.add(npar)
        return ex.run(f, [Ptr(Cell(Adt(ty, 0, fs))), Ptr(Cell(sym.Region("param", npar, vm.arr_init("param"))))])
    r = explore(make, run, 200, 20); st, why = H.PROVED, ""
    for e, _ in r.unsupported: st, why = H.UNDECIDED, "unsupported: " + e
    if r.cut or not r.paths: st, why = H.UNDECIDED, "cut"
    for e, pex in r.panics:
        if not str(e).startswith("index"): st, why = H.UNDECIDED, "panic " + str(e)
    n = 0
    for ex, v in r.paths:
        n += 1; w = ex.ghost.get("went")
        if w is None: continue
        if w[0] == "inline":
            for what, got, cap in (("stack_size", w[1], sizes["stack"]), ("cache_size", w[2], sizes["cache"])):
                b = ex.cmp("le", ex.nf(got), num(cap) if isinstance(cap, int) else ex.num_of(cap))
                if b is not True and ex.decide(b) is not True and st != H.REFUTED: st, why = H.REFUTED, f"inline evaluation with {what} not known to be at most {cap}"
        elif isinstance(w[1], sym.Region):
            d = ex.nf(tm.sub(ex.num_of(w[1].len), var("i.cache_size")))
            if tm.prove_eq(d, ZERO) is not True and st != H.REFUTED: st, why = H.REFUTED, "heap cache shorter than cache_size"
    C.ob("evaluate/dispatch", st, why or f"{n} paths; inline stack {sizes['stack']}, inline cache {sizes['cache']}")

# ------------------------------------------------------------------ bounded comparison on the real code
class Prog:
    def __init__(self, s):
        h, sg, b, ins, cons = (s.split(";") + [""] * 5)[:5]
        h = h.split(); self.stack, self.cache, self.params, self.nconst = map(int, h[:4]); self.tail, self.b2 = h[4] == "1", h[5] == "1"
        self.single = [R.unhx(x) for x in sg.split()]; self.batch = None if b.strip().startswith("ERR") else [R.unhx(x) for x in b.split()]; self.batcherr = b if self.batch is None else None
        self.ins = ins.split(); self.const = [R.unhx(x) for x in cons.split()]
def cev(t, names, cols):
    n = len(cols[0]) if cols else 1
    s = R.call("cev %d %s %d %s %s" % (len(names), " ".join(R.esc(x) for x in names), n, " ".join(R.hx(v) for c in cols for v in c), R.enc(t)), 20)
    return s if s.startswith("ERR") else Prog(s)
POPS = {}
def structure(p, table, pr):
    """None or a message: walks the program text by the instruction contracts"""
    d = 0; stored = set()
    for i in pr.ins:
        n, _, a = i.partition("("); a = a.rstrip(")").strip("{}")
        k = vm.pops(p, n, table)
        if k is None: return None
        if d < k: return f"{i} needs {k} values, {d} on the stack"
        out = {"Dup": 2, "Pop": 0, "Swap": 2}.get(n, 1)
        d += out - k
        if d > pr.stack: return f"depth {d} after {i} exceeds the declared stack size {pr.stack}"
        if n in ("LoadConst", "MulConst", "AddConst", "SubConst", "ConstSub") and int(a) >= len(pr.const): return f"{i}: {len(pr.const)} constants"
        if n == "PolyEval":
            c = int(a)
            if c >= len(pr.const) or c + 1 + int(pr.const[c]) >= len(pr.const) + 0 and c + 1 + int(pr.const[c]) > len(pr.const) - 1: return f"{i}: coefficients beyond the {len(pr.const)} constants"
        if n == "LoadParam" and int(a) >= pr.params: return f"{i}: {pr.params} parameters"
        if n == "StoreCached":
            if int(a) >= pr.cache: return f"{i}: {pr.cache} cache slots"
            stored.add(int(a))
        if n == "LoadCached":
            if int(a) >= pr.cache: return f"{i}: {pr.cache} cache slots"
            if int(a) not in stored: return f"{i}: slot not stored before"
    if d != 1: return f"{d} values left on the stack"
    return None
def bigtree(r, kind):
    """shapes that need a deep stack, many cache slots or many constants"""
    V = lambda: ("s", r.choice("xy"))
    n = r.choice([30, 47, 48, 49, 63, 64, 65, 70])
    if kind == 0:     # right-nested: depth n
        t = V()
        for i in range(n): t = r.choice([lambda t: ("/", V(), ("+", [("f", "exp", [V()]), t])), lambda t: ("^", ("f", "cosh", [V()]), ("f", "tanh", [t])), lambda t: ("+", [("*", [V(), ("f", "sin", [V()])]), ("f", "cos", [t])])])(t)
        return t
    if kind == 1:     # many fused products: 2n operands at once
        return ("+", [("*", [("f", "sin", [("*", [("n", float(i + 2)), V()])]), V()]) for i in range(n)])
    if kind == 4:     # shared subexpressions that are all live at once
        x = V(); l = [("f", "sin", [("+", [("*", [("n", 0.37 * (i + 1)), x]), ("n", float(i))])]) for i in range(r.choice([3, 20, 31, 32, 33, 40, 48, 49, 63, 64, 65, 80]))]
        a, b = r.sample(["cosh", "tanh", "exp", "atan", "cos"], 2)
        return ("/", ("+", [("f", a, [u]) for u in l]), ("+", [("n", 200.0)] + [("f", b, [u]) for u in l]))
    if kind == 2:     # many shared subexpressions
        l = [("f", r.choice(["sin", "cos", "exp", "tanh"]), [("+", [("*", [("n", 0.1 * (i + 1)), V()]), ("n", float(i))])]) for i in range(r.choice([5, 31, 32, 33, 63, 64, 65]))]
        return ("+", [("*", [a, ("f", "cosh", [("/", a, ("n", 50.0))])]) for a in l] + [("/", a, ("n", 7.0)) for a in l[:20]])
    return ("/", ("+", [("*", [("n", float(i) + 0.5), ("^", V(), ("n", float(i % 5 + 2)))]) for i in range(n // 2)]), ("+", [("f", "cosh", [("f", "sin", [V()])]), ("n", 3.0)]))
def alldef(t, e):
    """every subexpression has a value"""
    for x in O.nodes(t):
        if x[0] in "ns": continue
        v = O.ev(O.term(x), e)
        if v is None or abs(v.v) > 1e100: return False
    return True
def illtol(t): return 1e-6 if any(x[0] == "f" and x[1] in LOOSE for x in O.nodes(t)) else 1e-8
LOOSE = simpdiff.LOOSE
def w_bounded(a):
    seed, n, mode = a
    p, tab = _ST["p"], _ST["tab"]; r = random.Random(seed); st = collections.Counter(); out = []
    def one(t, envs, nm):
        cols = [[e[k] for e in envs] for k in nm]
        try: pr = cev(t, nm, cols)
        except R.Timeout: st["timeout"] += 1; return None
        except R.RPanic as e: return ("panic", str(e), None, None, None)
        if isinstance(pr, str):
            st["refused"] += 1
            return None
        if mode == "C08":
            w = structure(p, tab, pr)
            st["programs"] += 1
            if w: return ("bounds", w, None, None, None)
            for i, (x, y) in enumerate(zip(pr.single, (pr.batch or []) if wellc(t) else [])):
                # the inline, heap and batch executors run the same program: a slot outside a buffer shows as a different value
                if x == x and y == y and abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)) and not deep(t, envs[i]):
                    return ("bounds", f"at {envs[i]} the single evaluation gives {x}, the batch {y}: one of the two reads outside its buffers", envs[i], x, y)
            return None
        if mode == "C09":
            if pr.batch is None: return ("batch-error", pr.batcherr, None, None, None)
            if not pr.tail or not pr.b2: return ("tail", "output beyond the batch written, or a larger buffer changes the results", None, None, None)
            for i, (x, y) in enumerate(zip(pr.single, pr.batch)):
                st["points"] += 1
                if x == y or x != x and y != y: continue
                if abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y)): continue
                try: v = O.ev(O.term(t), {k: mpf(e) for k, e in envs[i].items()})
                except Exception: v = None
                if v is None and (x != x or y != y or math.isinf(x) or math.isinf(y)) and any(True for _ in [0]):
                    if (x != x) == (y != y): continue
                    # one of the two has no value although the other has: look for overflow on the way
                    if deep(t, envs[i]) or not alldef(t, {k: mpf(e) for k, e in envs[i].items()}): continue
                    return ("batch", None, envs[i], x, y)
                if v is not None and (v.scale > 1e12 or abs(x - y) <= 1e-12 * float(v.scale)): continue
                if v is None and abs(x - y) <= 1e-6 * (abs(x) + abs(y)): continue
                return ("batch", None, envs[i], x, y)
            return None
        try: term = O.term(t)
        except (O.Bad, RecursionError): return None
        for i, x in enumerate(pr.single):
            e = {k: mpf(v) for k, v in envs[i].items()}
            try: v = O.ev(term, e)
            except Exception: continue
            if v is None or v.scale > 1e12 or v.small < 1e-12: continue
            st["points"] += 1
            if x == x and not math.isinf(x) and abs(mpf(x) - v.v) <= illtol(t) * (1 + abs(v.v) + float(v.scale) * 1e-3): continue
            if x != x and any(y[0] == "f" and y[1] in LOOSE for y in O.nodes(t)): continue        # a special function may decline
            try: ill = simpdiff.illcond(t, e, abs(mpf(x) - v.v) if x == x and not math.isinf(x) else 1)
            except Exception: ill = True
            if ill or simpdiff.tiny_const(t) or not alldef(t, e): continue
            return ("value", None, envs[i], x, v.v)
        return None
    for i in range(n):
        nm = ["x", "y"]
        if i % 12 == 11: t = bigtree(r, r.randrange(5))
        else:
            g = simpdiff.G2(r, r.choice(["alg", "trig"]), names=("x", "y"), special=r.random() < 0.4, ufs=(), poly=True)
            t = g.tree(r.choice([1, 2, 3, 3, 4, 5]))
            if r.random() < 0.3: t = motif(r, g)
            if O.size(t) > 90: continue
        k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 13]) if mode == "C09" else 3
        envs = [{v: r.choice([0.3, 0.7, 1.3, 2.2, 3.1, 1.0, 2.0, 0.5]) * r.choice([1, 1, 1, -1]) * (1 if r.random() < 0.3 else 1 + r.randrange(-50, 50) / 997) for v in nm} for _ in range(k)]
        st["cases"] += 1
        try: w = one(t, envs, nm)
        except Exception as e: st["exc:" + type(e).__name__] += 1; continue
        if w:
            def again(c):
                q = one(c, envs, nm); return bool(q) and q[0] == w[0]
            try: t2 = O.shrink(t, again, 120)
            except Exception: t2 = t
            w2 = one(t2, envs, nm) or w
            out.append((t2, w2))
            if len(out) >= 2: break
    return out, st
def wellc(t):
    """the well-conditioned quotient of two sums that bigtree(4) builds (all terms bounded away from cancellation)"""
    return t[0] == "/" and t[1][0] == t[2][0] == "+" and ("n", 200.0) in t[2][1] and all(u[0] == "f" and u[1] in ("cosh", "tanh", "exp", "atan", "cos") for u in t[1][1])
def deep(t, env):
    """some intermediate value too large or too small for a meaningful comparison"""
    for x in O.nodes(t):
        if x[0] in "ns": continue
        try: v = O.ev(O.term(x), {k: mpf(e) for k, e in env.items()})
        except Exception: continue
        if v is not None and (abs(v.v) > 1e15 or 0 < abs(v.v) < 1e-15): return True
    return False
def motif(r, g):
    """patterns the compiler and the peephole pass fuse"""
    a, b, c = g.tree(1), g.tree(1), g.tree(1); N = lambda *v: ("n", float(r.choice(v))); neg = lambda u: ("*", [("n", -1.0), u]); F = lambda f, u: ("f", f, [u])
    return r.choice([
        lambda: ("+", [("*", [a, b]), c]), lambda: ("+", [c, neg(("*", [a, b]))]), lambda: ("+", [("*", [a, b]), neg(c)]), lambda: ("+", [("*", [("n", -1.0), a, b]), c, ("*", [a, c])]),
        lambda: ("+", [F("exp", a), ("n", -1.0)]), lambda: ("/", N(1, 2, -1), ("+", [F("exp", a), ("n", -1.0)])), lambda: ("/", N(1, 2, -1), ("+", [F("exp", a), b, ("n", -1.0)])), lambda: ("+", [F("exp", a), b, ("n", -1.0)]), lambda: ("/", b, ("+", [F("exp", a), N(-1, 1, 2)])), lambda: ("+", [F("exp", a), N(1, -2)]), lambda: F("ln", ("+", [("n", 1.0), a, b])), lambda: F("ln", ("+", [("n", 1.0), a])), lambda: F("exp", neg(a)), lambda: F("exp", ("^", a, N(2))), lambda: F("exp", neg(("^", a, N(2)))),
        lambda: ("^", a, N(2, 3, 4, -1, -2, -3, 1.5, -1.5, 0.5, -0.5, 7, 0, 1)), lambda: ("/", N(1, 2, -3), ("^", a, N(2, 3, 0.5, 1.5))), lambda: ("/", F("sin", a), a), lambda: ("/", a, F("sqrt", b)), lambda: ("*", [F("sqrt", a), a]),
        lambda: ("/", N(1), F("sqrt", a)), lambda: ("+", [a, a]), lambda: ("*", [a, a]), lambda: ("*", [a, a, a]), lambda: ("*", [a, a, b, b]), lambda: ("*", [a, a, a, a]), lambda: ("*", [F("sin", a), F("sin", a), F("cos", b)]), lambda: ("/", ("+", [a, b]), ("+", [a, b])),
        lambda: ("+", [("/", N(2, 1, -1), F("exp", a)), b]), lambda: ("*", [N(3, -2), a, N(2, 0.5)]), lambda: ("+", [N(3, -2), a, N(2, 0.5)]), lambda: ("+", [N(5), neg(a)]), lambda: ("P", a, [(k, float(r.choice([1, -2, 3, 0.5]))) for k in sorted(r.sample(range(0, 12), r.choice([1, 2, 3, 4])))]),
        lambda: ("+", [("P", a, [(0, 1.0), (2, 2.0)]), ("P", a, [(0, 1.0), (2, 2.0)])]), lambda: ("^", ("s", "e"), neg(a)), lambda: ("^", N(2, 10, 0.5), a), lambda: ("f", "log", [N(2, 10, 3), ("+", [("^", a, N(2)), N(1)])]), lambda: ("+", [("f", "sin", [a]), ("*", [("f", "sin", [a]), ("f", "cos", [a])]), ("f", "cos", [a])])])()
def fdiff(C, mode):
    """every table entry: the compiled function against the registry's own evaluation and the batch result"""
    tasks = [(nm, k) for nm, lo, hi in _ST["full"] for k in range(lo, hi + 1)]
    st = collections.Counter()
    for out, s in par.run(w_fdiff, [(nm, k, mode) for nm, k in tasks], C):
        st.update(s)
        for key, what, rep in out: C.violate(key, what, rep)
    C.bounded["compiled_functions_on_grids"] = {"cases": st["points"], "bound": "every built-in function on a fixed grid of arguments (including branch points and negative values)"}
VALS = [-20.0, -6.0, -2.5, -1.5, -1.0, -0.5, -0.3, -0.1, 0.0, 0.1, 0.3, 0.5, 0.9, 1.0, 1.5, 2.0, 2.5, 3.7, 6.0, 20.0]
def w_fdiff(a):
    nm, k, mode = a; st = collections.Counter(); out = []
    V = [("s", c) for c in "abcd"[:k]]; N = "abcd"[:k]
    import itertools
    if k == 1: pts = [(v,) for v in VALS]
    elif k == 2: pts = list(itertools.product([-1.0, 0.0, 1.0, 2.0, 3.0, 0.5], [-1.5, 0.0, 0.4, 1.0, 2.0, 7.0]))
    elif k == 3: pts = [(l, m, x) for l in (0.0, 1.0, 2.0, 3.0) for m in (-2.0, -1.0, 0.0, 1.0, 2.0) for x in (-0.6, 0.3, 0.9)]
    else: pts = [(l, m, x, 0.7) for l in (0.0, 1.0, 2.0, 3.0) for m in (-2.0, -1.0, 0.0, 1.0, 2.0) for x in (-0.6, 0.3, 0.9)]
    if k > 1: pts = pts + random.Random(len(nm)).sample(pts, len(pts))        # every argument varies within a group of four lanes
    if len(pts) % 4 == 0: pts = pts + pts[:1]        # at least one point outside the last full vector
    try: pr = cev(("f", nm, V), list(N), [list(c) for c in zip(*pts)])
    except (R.RPanic, R.Timeout) as e: return [("fn:" + nm, f"compiling or evaluating {nm} fails: {e!r}", {"kind": "cev", "name": nm})], st
    if isinstance(pr, str): st["refused"] += 1; return out, st
    eq = lambda a, c: (a != a and c != c) or a == c or abs(a - c) <= 1e-9 * (1 + abs(a) + abs(c))
    for i, (q, x, y) in enumerate(zip(pts, pr.single, pr.batch or pr.single)):
        st["points"] += 1
        if mode == "C09":
            if not eq(x, y): out.append((f"fn:{nm}", f"{nm}{q}: point {i} of a batch of {len(pts)} gives {y}, evaluated alone {x}", {"kind": "cev", "name": nm, "args": q})); break
            continue
        try: z = R.call(f"fneval {nm} {' '.join(R.hx(v) for v in q)}")
        except (R.RPanic, R.Timeout): continue
        z = z.split()[-1] if z else "-"
        ref = None if z == "-" else R.unhx(z)
        if ref is None:
            if x == x and not math.isinf(x): out.append((f"fn:{nm}", f"compiled {nm}{q} gives {x} where the function declines", {"kind": "cev", "name": nm, "args": q})); break
        elif not eq(x, ref): out.append((f"fn:{nm}", f"compiled {nm}{q} gives {x}, the function table gives {ref}", {"kind": "cev", "name": nm, "args": q})); break
    return out, st
def bounded(C, mode, quick, thorough):
    per = 60; n = thorough if C.thorough else quick; st = collections.Counter()
    for out, s in par.run(w_bounded, [(C.seed * 7907 + i * 31, per, mode) for i in range(n // per)], C):
        st.update(s)
        for t, w in out:
            if w[0] == "panic": what = f"compiling or evaluating {R.show(t)[:300]} panics: {w[1]}"
            elif w[0] == "value": what = f"compiled {R.show(t)[:300]} at {w[2]} gives {w[3]}, the expression is {mpmath.nstr(w[4], 15)}"
            elif w[0] == "batch": what = f"{R.show(t)[:300]} at {w[2]}: the batch gives {w[4]}, the point alone {w[3]}"
            else: what = f"{R.show(t)[:300]}: {w[1]}"
            C.violate(f"{w[0]}:{R.show(t)[:200]}", what, {"kind": "cev", "input": R.enc(t), "env": w[2]})
    C.bounded["compiled_programs"] = {**st, "cases": st["cases"], "bound": "random expressions of depth <= 5, fused patterns, and shapes with up to 70 nested operands / 65 cache slots"}
