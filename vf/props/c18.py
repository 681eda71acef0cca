"""C18: limits and names. node_count / max_depth per node kind; the guards of every entry point against abstract
depth, count, membership, parser, derivative and simplifier."""
import random
from .. import term as tm, mir, sym, models, den, rec, harness as H, replay as R, oracle as O, par, bnd as BND_
from ..term import num, var, ZERO, ONE
from ..sym import Sym, SymV, StrSym, Ptr, Cell, VecV, Adt, MapV, Opaque, UNIT
from . import c01, c17
ANA, B = c01.ANA, "symb_anafis::api::builder::"
DEP, CNT = ANA + "max_depth", ANA + "node_count"
_ST = None
def meas(ex, what, v):
    k = (what, rec.key(ex, v)); t = var(f"{what}:{rec.key(ex, v)}")
    ex.ghost.setdefault(k, t); ex.ints.add(t); ex.assume(ex.cmp("le", ONE, t)) if not ex.ghost.get(("as", t)) else None; ex.ghost[("as", t)] = True
    return t
def tou(ex, t): return ex.toint(t, False)
# ------------------------------------------------------------------ counts
def w_count(a):
    nm, case = a; C, p, cs, ly = _ST; kind, ar, pt = case; sym.EXEC.clear()
    f = p.fn(ANA + nm)
    if f is None: return a, H.UNDECIDED, nm + " not found", []
    cs = dict(cs)
    def c_rec(ex, fn_, x):
        return tou(ex, meas(ex, nm, x[0]))
    cs[ANA + nm] = c_rec
    TT = "symb_anafis::core::poly::Polynomial::to_expr_terms"
    def c_terms(ex, fn_, x):
        n = pt or 0; e = [Sym(ex.fresh_id("term"), ly.EX) for _ in range(n)]; ex.ghost["expanded"] = e; return VecV(e)
    cs[TT] = c_terms
    def run(ex):
        IN, ka = rec.setup(ex, ly, kind, ar, poly=pt); ex.ghost["ka"] = ka
        if kind == "Poly": ex.need_adt(den.strip(ex, ka.f[0]))
        return ex.run(f, [Ptr(Cell(IN))])
    def judge(ex, v):
        ch = ex.ghost.get("expanded", []) if kind == "Poly" else rec.children(ex, ly, kind, ex.ghost["ka"])
        if kind == "Poly" and "expanded" not in ex.ghost and pt: return H.REFUTED, "the expanded form of the polynomial is not counted"
        ms = [meas(ex, nm, c) for c in ch]; r = ex.num_of(v)
        if nm == "node_count":
            want = ONE
            for m in ms: want = tm.add(want, m)
            return (H.PROVED, "") if tm.prove_eq(ex.nf(r), ex.nf(want)) is True else (H.REFUTED, f"returns {tm.show(ex.nf(r))}, one more than the operands together is {tm.show(want)}")
        d = tm.sub(r, ONE)
        if not ms: return (H.PROVED, "") if tm.prove_eq(ex.nf(r), ONE) is True else (H.REFUTED, f"returns {tm.show(ex.nf(r))} for a leaf")
        if not any(tm.prove_eq(ex.nf(d), ex.nf(m)) is True for m in ms): return H.REFUTED, f"returns {tm.show(ex.nf(r))}, not one more than an operand's depth"
        for m in ms:
            c = ex.cmp("le", m, d)
            if c is True or (c is not False and ex.decide(c) is True): continue
            return H.REFUTED, "an operand is deeper than the reported depth"
        return H.PROVED, ""
    st, why, n = rec.drive(C, p, cs, "", run, judge, opts={"nopanic": lambda pe, e: True})
    return a, st, why, list(sym.EXEC)
# ------------------------------------------------------------------ the guards
def mk_self(ex, ty, **over):
    s = Sym(ex.fresh_id("self"), ty); a = ex.refine_to(s, 0); fs = list(a.f); ns = [n for n, _ in ex.prog.types[ty]["v"][0]["f"]]
    for k, v in over.items(): fs[ns.index(k)] = v
    ex.ghost["selff"] = dict(zip(ns, fs))
    return Adt(a.ty, a.var, fs)
def opt(ex, nm, v):
    """a limit: absent or a number"""
    if ex.choose(2, nm) == 1: return models.none(ex), None
    t = var("limit:" + nm); ex.ints.add(t); ex.nn.add(t); return models.some(ex, tou(ex, t)), t
def errname(ex, e):
    e = ex.need_adt(e); vv = ex.prog.types[e.ty]["v"][e.var]; return vv["n"], dict(zip([n for n, _ in vv["f"]], e.f))
def same_str(ex, v, s):
    x = models.S(ex, v)
    if isinstance(x, str): return False
    return x.s is s.s or ex.sym_name(x.s)[1] == ex.sym_name(s.s)[1]
def gt(ex, a, b):
    c = ex.cmp("lt", b, a)
    return c if isinstance(c, bool) else ex.decide(c)
def guard_contracts(p, ly):
    cs = dict(den.base_contracts(p))
    cs[DEP] = lambda ex, f, a: tou(ex, meas(ex, "max_depth", a[0]))
    cs[CNT] = lambda ex, f, a: tou(ex, meas(ex, "node_count", a[0]))
    for g in p.fns:
        d = g["def"]
        if d.startswith(B) and d.endswith(("::build_context", "::build_bodies_map")): cs[d] = lambda ex, f, a, w=d.rsplit("::", 1)[1]: Opaque(w)
        if "HashSet" in d and d.endswith("::contains"): cs[d] = c_contains
        if "HashSet" in d and d.endswith("::clone"): cs[d] = lambda ex, f, a: ex.deref_all(a[0]) if isinstance(ex.deref_all(a[0]), Opaque) else NotImplemented
        if d.endswith("::derive") and "Expr" in d: cs[d] = c_derive
        if d.endswith("simplification::simplify_expr"): cs[d] = c_simplify
        if d.endswith("core::symbol::Symbol::name"): cs[d] = lambda ex, f, a: models.some(ex, ex.ghost["varname"])
    return cs
def c_contains(ex, f, a):
    if not isinstance(ex.deref_all(a[0]), Opaque): return NotImplemented
    ex.ghost.setdefault("asked", []).append(a[1]); return ex.ghost["fixed"]
def c_derive(ex, f, a):
    ex.ghost["derived"] = (rec.key(ex, a[0]), a[1]); return Sym("DERIV", den.lay(ex.prog).EX)
def c_simplify(ex, f, a):
    ex.ghost["simplified"] = (rec.key(ex, a[0]), a[3]); return Sym("SIMP", den.lay(ex.prog).EX)
def w_guard(nm):
    C, p, _, ly = _ST; cs = guard_contracts(p, ly); sym.EXEC.clear()
    T = {"Diff": p.adt(B + "Diff"), "Simplify": p.adt(B + "Simplify")}
    f = p.fn(B + nm)
    if f is None: return nm, H.UNDECIDED, "not found", []
    ty = T[nm.split("::")[0]]; isd = nm.startswith("Diff")
    def run(ex):
        ex.ghost["fixed"] = isd and ex.choose(2, "variable declared fixed") == 0
        d, ex.ghost["D"] = opt(ex, "max_depth", None); n, ex.ghost["N"] = opt(ex, "max_nodes", None)
        over = dict(known_symbols=Opaque("fixed names"), user_fns=Opaque("functions"), max_depth=d, max_nodes=n)
        if isd:
            ex.ghost["skip"] = ex.choose(2, "skip simplification") == 0; over["skip_simplification"] = ex.ghost["skip"]
        me = mk_self(ex, ty, **over); E = Sym("IN", ly.EX); ex.ghost["in"] = E
        # the truth about the limits is fixed before the code runs
        dep, cnt = meas(ex, "max_depth", E), meas(ex, "node_count", E)
        ex.ghost["over"] = (ex.ghost["D"] is not None and ex.branch(ex.cmp("lt", ex.ghost["D"], dep)), ex.ghost["N"] is not None and ex.branch(ex.cmp("lt", ex.ghost["N"], cnt)))
        s = StrSym(SymV("dvar")); ex.ghost["varname"] = s
        args = [Ptr(Cell(me)), Ptr(Cell(E))]
        if nm == "Diff::differentiate": args.append(Ptr(Cell(Opaque("symbol"))))
        elif isd: args.append(s)
        return ex.run(f, args)
    def judge(ex, v):
        v = ex.need_adt(v); od, on = ex.ghost["over"]; fx = ex.ghost["fixed"]
        if v.var == 1:
            n, g = errname(ex, v.f[0])
            if n == "MaxDepthExceeded": return (H.PROVED, "") if od else (H.REFUTED, "MaxDepthExceeded although the depth does not exceed the limit")
            if n == "MaxNodesExceeded": return (H.PROVED, "") if on else (H.REFUTED, "MaxNodesExceeded although the node count does not exceed the limit")
            if n == "VariableInBothFixedAndDiff": return (H.PROVED, "") if fx and same_str(ex, g["var"], ex.ghost["varname"]) else (H.REFUTED, "refused although the variable is not fixed")
            return H.REFUTED, "error " + n
        if od: return H.REFUTED, "accepted although the depth exceeds max_depth"
        if on: return H.REFUTED, "accepted although the node count exceeds max_nodes"
        if fx: return H.REFUTED, "accepted although the variable is declared fixed"
        k = rec.key(ex, v.f[0]); inp = rec.key(ex, ex.ghost["in"])
        if isd:
            dr = ex.ghost.get("derived")
            if dr is None or dr[0] != inp or not same_str(ex, dr[1], ex.ghost["varname"]): return H.REFUTED, "does not differentiate the input with respect to the variable"
            if ex.ghost["skip"]: return (H.PROVED, "") if k == "DERIV" else (H.REFUTED, f"returns {k}")
            inp = "DERIV"
        sm = ex.ghost.get("simplified")
        if sm is None or sm[0] != inp or k != "SIMP": return H.REFUTED, f"returns {k}, simplified {sm and sm[0]}"
        return H.PROVED, ""
    st, why, n = rec.drive(C, p, cs, "", run, judge, opts={"nopanic": lambda pe, e: True})
    return nm, st, why, list(sym.EXEC)
# ------------------------------------------------------------------ string entry points
def w_str(a):
    nm, nk, nf, ns = a; C, p, _, ly = _ST; sym.EXEC.clear(); isd = nm.startswith("Diff")
    ty = p.adt(B + nm.split("::")[0]); f = p.fn(B + nm)
    if f is None: return a, H.UNDECIDED, "not found", []
    cs = guard_contracts(p, ly)
    for g in p.fns:
        if "HashSet" in g["def"] and g["def"].endswith(("::contains", "::clone")): cs.pop(g["def"], None)
    EN = p.adt("symb_anafis::core::error::DiffError")
    def outcome(ex, lab, v):
        if ex.choose(2, lab + " succeeds") == 0: ex.ghost[lab] = "ok"; return models.ok(ex, v)
        ex.ghost[lab] = "err"; return models.err(ex, Opaque(lab + " error"))
    def c_parse(ex, fn_, x):
        ex.ghost["parse args"] = (x[0], ex.deref_all(x[1]), ex.deref_all(x[2])); return outcome(ex, "parse", Sym("AST", ly.EX))
    def c_go(ex, fn_, x):
        ex.ghost["go args"] = (rec.key(ex, x[1]), ex.deref_all(x[2]) if isd else None); return outcome(ex, "go", Sym("OUT", ly.EX))
    def c_symb(ex, fn_, x): ex.ghost["symb"] = x[-1]; return Opaque("symbol of var")
    for g in p.fns:
        d = g["def"]
        if d.endswith("parser::parse"): cs[d] = c_parse
        if d.endswith(("::symbol::symb", "::registry::symb", "unified_context::Context::symb")): cs[d] = c_symb
    cs[B + ("Diff::differentiate" if isd else "Simplify::simplify")] = c_go
    cs[B + "Diff::differentiate_by_name"] = c_go
    def run(ex):
        nmv = lambda w: StrSym(SymV(w))
        K = [nmv(f"k{i}") for i in range(nk)]; F = [nmv(f"f{i}") for i in range(nf)]; S_ = [nmv(f"s{i}") for i in range(ns)]; V = nmv("dvar")
        eq = lambda x, y: ex.branch(models.eqv(ex, x, y))
        # set elements are distinct; every other coincidence is enumerated before the code runs
        if ns == 2 and eq(S_[0], S_[1]): raise sym.Infeasible()
        if nf == 2 and eq(F[0], F[1]): raise sym.Infeasible()
        ex.ghost["fixed"] = isd and any([eq(V, x) for x in K + S_]); ex.ghost["clash"] = [x for x in F if any([eq(x, y) for y in K + S_])]
        ex.ghost["K"], ex.ghost["F"], ex.ghost["V"] = K + S_, F, V
        me = mk_self(ex, ty, known_symbols=MapV([(x, UNIT) for x in S_]), user_fns=MapV([(x, Opaque("fn")) for x in F]))
        ex.ghost["formula"] = nmv("formula")
        args = [Ptr(Cell(me)), ex.ghost["formula"]] + ([V] if isd else []) + [Ptr(Cell(VecV(K)))]
        return ex.run(f, args)
    def judge(ex, v):
        v = ex.need_adt(v); g = ex.ghost
        if g["fixed"] or g["clash"]:
            if v.var != 1 or isinstance(ex.force(v.f[0]), Opaque): return H.REFUTED, "goes on although " + ("the variable is fixed" if g["fixed"] else "a name is both symbol and function")
            n, x = errname(ex, v.f[0])
            if n == "VariableInBothFixedAndDiff": return (H.PROVED, "") if g["fixed"] and same_str(ex, x["var"], g["V"]) else (H.REFUTED, "wrong refusal " + n)
            if n == "NameCollision": return (H.PROVED, "") if any(same_str(ex, x["name"], c) for c in g["clash"]) else (H.REFUTED, "reports a collision of another name")
            return H.REFUTED, "error " + n
        if "parse args" not in g: return H.REFUTED, "refused although no name clashes"
        fo, sy, fu = g["parse args"]
        if not same_str(ex, fo, g["formula"]): return H.REFUTED, "parses another text"
        for want, m, w in ((g["K"], sy, "symbols"), (g["F"], fu, "functions")):
            if not isinstance(m, MapV): return H.UNDECIDED, w + " passed to the parser not recognised"
            got = {ex.sym_name(models.S(ex, k).s)[1] for k, _ in m.kv}; exp = {ex.sym_name(x.s)[1] for x in want}
            if got != exp: return H.REFUTED, f"the parser is given {sorted(got)} as {w}, declared are {sorted(exp)}"
        if g["parse"] == "err": return (H.PROVED, "") if v.var == 1 and isinstance(ex.force(v.f[0]), Opaque) else (H.REFUTED, "parser error lost")
        if "go args" not in g or g["go args"][0] != "AST": return H.REFUTED, "does not work on the parsed expression"
        if isd and not (same_str(ex, g.get("symb", g["formula"]), g["V"]) or same_str(ex, g["go args"][1], g["V"])): return H.REFUTED, "differentiates with respect to another variable"
        if g["go"] == "err": return (H.PROVED, "") if v.var == 1 and isinstance(ex.force(v.f[0]), Opaque) else (H.REFUTED, "error lost")
        return (H.PROVED, "") if v.var == 0 else (H.REFUTED, "error although everything succeeded")
    st, why, n = rec.drive(C, p, cs, "", run, judge, opts={"nopanic": lambda pe, e: True})
    return a, st, why, list(sym.EXEC)
# ------------------------------------------------------------------ setters
def w_set(a):
    nm, fld, val = a; C, p, _, ly = _ST; sym.EXEC.clear(); ty = p.adt(B + nm.split("::")[0]); f = p.fn(B + nm)
    if f is None: return a, H.UNDECIDED, "not found", []
    ns = [n for n, _ in p.types[ty]["v"][0]["f"]]
    def run(ex):
        marks = {n: Opaque("old " + n) for n in ns if n not in ("max_depth", "max_nodes", "domain_safe", "skip_simplification")}
        me = mk_self(ex, ty, **marks); ex.ghost["me"] = me
        t = var("limit"); ex.ints.add(t); ex.nn.add(t)
        return ex.run(f, [me, tou(ex, t) if val is None else val])
    def judge(ex, v):
        v = ex.need_adt(v)
        for n, x, y in zip(ns, v.f, ex.ghost["me"].f):
            if n == fld:
                if val is None:
                    o = ex.need_adt(x)
                    if not o.f or tm.prove_eq(ex.nf(ex.num_of(o.f[0])), var("limit")) is not True: return H.REFUTED, n + " is not the given limit"
                elif ex.force(x) is not val: return H.REFUTED, n + " is not the given value"
            elif ex.force(x) is not ex.force(y) and not models_same(ex, x, y): return H.REFUTED, f"also changes {n}"
        return H.PROVED, ""
    st, why, n = rec.drive(C, p, {}, "", run, judge)
    return a, st, why, list(sym.EXEC)
def models_same(ex, x, y):
    x, y = ex.force(x), ex.force(y)
    if isinstance(x, Adt) and isinstance(y, Adt): return x.var == y.var and len(x.f) == len(y.f) and all(models_same(ex, a, b) for a, b in zip(x.f, y.f))
    return x is y or x == y
def contractual(C):
    global _ST
    p = mir.prog(); ly = den.lay(p); _ST = C, p, c17.contracts(p), ly
    for a, st, why, fns in par.run(w_count, [(n, c) for n in ("node_count", "max_depth") for c in c17.CASES], C):
        C.fns.update(fns); C.ob(f"{a[0]}/{c17.label(a[1])}", st, why, bounded=c17.BND(a[1]) if st == H.PROVED else None)
    for nm, st, why, fns in par.run(w_guard, ["Diff::differentiate_by_name", "Diff::differentiate", "Simplify::simplify"], C):
        C.fns.update(fns); C.ob(f"limits/{nm}", st, why)
    sizes = [(i, j, k) for i in (0, 1, 2) for j in (0, 1, 2) for k in (0, 1) if i + j + k <= (4 if C.thorough else 3)] + [(0, 1, 2), (1, 0, 2)]
    for a, st, why, fns in par.run(w_str, [(n,) + s for n in ("Diff::diff_str", "Simplify::simplify_str") for s in sizes], C):
        C.fns.update(fns); C.ob(f"names/{a[0]}/{a[1]} known, {a[2]} functions, {a[3]} declared", st, why, bounded="exactly these numbers of names" if st == H.PROVED else None)
    S = [(f"{t}::{n}", n, None) for t in ("Diff", "Simplify") for n in ("max_depth", "max_nodes")] + [("Diff::skip_simplification", "skip_simplification", True), ("Diff::domain_safe", "domain_safe", True), ("Simplify::domain_safe", "domain_safe", True)]
    for a, st, why, fns in par.run(w_set, S, C):
        C.fns.update(fns); C.ob("setter/" + a[0], st, why)
# ------------------------------------------------------------------ diff() / simplify(): the default limits
def w_free(a):
    nm, k = a; C, p, _, ly = _ST; sym.EXEC.clear(); f = p.fn("symb_anafis::" + nm); isd = nm == "diff"
    if f is None: return a, H.UNDECIDED, "not found", []
    def c_go(ex, fn_, x): ex.ghost["self"] = ex.need_adt(ex.deref_all(x[0])); ex.ghost["rest"] = list(x[1:]); return Opaque("answer")
    cs = {B + "Diff::diff_str": c_go, B + "Simplify::simplify_str": c_go}
    for g in p.fns:
        if g["def"].endswith("UserFunction::any_arity"): cs[g["def"]] = lambda ex, f_, x: Opaque("any arity")
    def run(ex):
        F = [StrSym(SymV(f"f{i}")) for i in range(k or 0)]; s, v, ks = StrSym(SymV("formula")), StrSym(SymV("dvar")), Ptr(Cell(Opaque("known")))
        if len(F) == 2 and ex.branch(models.eqv(ex, F[0], F[1])): raise sym.Infeasible()
        ex.ghost["a"] = [s] + ([v] if isd else []) + [ks]; ex.ghost["F"] = F
        return ex.run(f, ex.ghost["a"] + [models.none(ex) if k is None else models.some(ex, Ptr(Cell(VecV(F))))])
    def judge(ex, v):
        me = ex.ghost.get("self")
        if me is None or not (isinstance(v, Opaque) and v.what == "answer"): return H.REFUTED, "does not return the builder's answer"
        d = dict(zip([n for n, _ in p.types[me.ty]["v"][0]["f"]], me.f))
        for n, w in (("max_depth", 100), ("max_nodes", 10000)):
            o = ex.need_adt(d[n])
            if not o.f or tm.prove_eq(ex.nf(ex.num_of(o.f[0])), num(w)) is not True: return H.REFUTED, f"{n} is not the documented default {w}"
        if isd and ex.force(d["skip_simplification"]) is not False: return H.REFUTED, "skips simplification"
        if ex.force(d["domain_safe"]) is not False: return H.REFUTED, "domain-safe"
        m = ex.force(d["user_fns"])
        if not isinstance(m, MapV) or {ex.sym_name(models.S(ex, x).s)[1] for x, _ in m.kv} != {ex.sym_name(x.s)[1] for x in ex.ghost["F"]}: return H.REFUTED, "registers other functions than the given ones"
        for x, y in zip(ex.ghost["rest"], ex.ghost["a"]):
            if ex.deref_all(x) is not ex.deref_all(y) and not (isinstance(y, StrSym) and same_str(ex, x, y)): return H.REFUTED, "passes other arguments on"
        return H.PROVED, ""
    st, why, n = rec.drive(C, p, cs, "", run, judge)
    return a, st, why, list(sym.EXEC)
# ------------------------------------------------------------------ bounded: the real entry points
def counts(t):
    """node count and depth of the tree as the public view presents it; None: not determined here"""
    k = t[0]
    if k in "ns": return 1, 1
    if k == "P":
        b = counts(t[1])
        if b is None or t[1][0] not in "sf": return None
        out = []
        for p_, c in t[2]:
            if p_ == 0: out.append((1, 1)); continue
            q = b if p_ == 1 else (b[0] + 2, b[1] + 1)
            if abs(c - 1) > 1e-9: q = (q[0] + 2, q[1] + 1)
            elif c != 1: return None
            out.append(q)
    else:
        out = [counts(c) for c in O.children(t)]
        if any(o is None for o in out): return None
    return 1 + sum(o[0] for o in out), 1 + max((o[1] for o in out), default=0)
def built(t): return R.dec(R.call("raw " + R.enc(t)))
def gen(r): return c17.gen(r, deriv=False)
def wrap(r, t):
    for _ in range(r.choice([0, 0, 1, 3, 12])): t = ("f", r.choice(["sin", "cos", "exp", "sqrt"]), [t]) if r.random() < 0.6 else ("+", [("^", ("f", "sin", [t]), ("n", 2.0)), ("f", "sin", [t]), ("n", 1.0)])
    return t
def limit(r, n): return r.choice([None, None, n, n, n - 1, n + 1, 1, 0, n * 3])
ml = lambda v: "-" if v is None else str(v)
def case_counts(r, st):
    t = gen(r)
    if O.size(t) < 15: t = wrap(r, t)
    def f(c):
        b = built(c); w = counts(b)
        if w is None: st["poly over a composite base"] += 1; return None
        g = tuple(int(x) for x in R.call("limits " + R.enc(c)).split())
        return ("counts", f"node_count, max_depth = {g}, the tree has {w}") if g != w else None
    w = f(t)
    if not w: return None
    t = BND_.shrunk(t, f); w = f(t) or w
    return f"counts:{R.show(t)[:150]}", f"{R.show(t)[:300]}: {w[1]}", {"kind": "limits", "input": R.enc(t)}
def verdict(s): return s.split(" ")[0:2] if s.startswith("ERR") else "ok"
def case_limits(r, st):
    t = gen(r); 
    if O.size(t) < 15: t = wrap(r, t) if r.random() < 0.4 else t
    n, d = (int(x) for x in R.call("limits " + R.enc(t)).split())
    md, mn = limit(r, d), limit(r, n)
    if md is not None and md < 0: md = 0
    if mn is not None and mn < 0: mn = 0
    fx = r.sample(["x", "y", "z", "w"], r.choice([0, 0, 1, 2])); v = r.choice("xyz"); kind = r.choice(["diff", "simpo"])
    cmd = f"diff {v} {r.randrange(2)} {r.randrange(2)} {ml(md)} {ml(mn)} {len(fx)} {' '.join(fx)} {R.enc(t)}" if kind == "diff" else f"simpo {r.randrange(2)} {ml(md)} {ml(mn)} {len(fx)} {' '.join(fx)} {R.enc(t)}"
    s = R.call(cmd.replace("  ", " "), 10); got = s[4:] if s.startswith("ERR") else None
    ok = set()
    if md is not None and d > md: ok.add("MaxDepthExceeded")
    if mn is not None and n > mn: ok.add("MaxNodesExceeded")
    if kind == "diff" and v in fx: ok.add("VariableInBothFixedAndDiff")
    st["refused" if ok else "accepted"] += 1
    if got is None and not ok or got is not None and any(o in got for o in ok): return None
    return f"limits:{kind}:{sorted(ok)}", f"{kind} of {R.show(t)[:200]} (depth {d}, {n} nodes) with max_depth={md}, max_nodes={mn}, fixed {fx}, variable {v}: {got or 'accepted'}; expected {sorted(ok) or 'accepted'}", {"kind": "command", "command": cmd}
def case_names(r, st):
    pool = ["x", "y", "f", "g", "alpha"]; text = r.choice(["x^2+y", "f(x)+x", "alpha*x", "g(x)*f(y)", "x", "sin(x)^2+x", "(x+1)*(y+2)"])
    pick = lambda: r.sample(pool, r.choice([0, 0, 1, 1, 2])); K, X, F = pick(), pick(), pick(); v = r.choice(pool)
    try: p0 = R.call(f"parse {R.esc(text)} {len(set(K + X))} {' '.join(sorted(set(K + X)))} {len(F)} {' '.join(F)}".replace("  ", " ").strip())
    except R.RPanic: return None
    n, d = (None, None) if p0.startswith("ERR") else (int(x) for x in R.call("limits " + p0).split())
    md, mn = (None, None) if n is None or r.random() < 0.5 else (limit(r, d), limit(r, n))
    kind = r.choice(["diffstr", "simpstr"]); L = lambda l: f"{len(l)} {' '.join(l)}".strip()
    cmd = f"diffstr {R.esc(text)} {v} {L(K)} {L(X)} {L(F)} {ml(md)} {ml(mn)}" if kind == "diffstr" else f"simpstr {R.esc(text)} {L(K)} {L(X)} {L(F)} {ml(md)} {ml(mn)}"
    s = R.call(cmd, 10); got = s[4:] if s.startswith("ERR") else None
    ok = set()
    if kind == "diffstr" and v in K + X: ok.add("VariableInBothFixedAndDiff")
    if set(F) & set(K + X): ok.add("NameCollision")
    if not ok and n is None: return None
    if not ok:
        if md is not None and d > md: ok.add("MaxDepthExceeded")
        if mn is not None and n > mn: ok.add("MaxNodesExceeded")
    st["refused" if ok else "accepted"] += 1
    if got is None and not ok or got is not None and any(o in got for o in ok): return None
    return f"names:{kind}:{sorted(ok)}", f"{kind} {text!r} variable {v}, known {K}, fixed {X}, functions {F}, max_depth={md}, max_nodes={mn}: {got or 'accepted'}; expected {sorted(ok) or 'accepted'}", {"kind": "command", "command": cmd}
def bounded(C):
    BND_.run(C, "counts", case_counts, 4000, 40000, "random expressions of depth <= 4, wrapped up to 12 times; polynomials over symbols and calls")
    BND_.run(C, "limits", case_limits, 3000, 40000, "the same, limits around the true values, up to two fixed names", seed=1)
    BND_.run(C, "names", case_names, 3000, 30000, "seven formulas, five names in every role, limits around the true values", seed=2)
def main():
    C = H.Check("C18")
    C.trusted = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor and std models", "assumed contracts: Polynomial::to_expr_terms gives the expanded form (C10), parser::parse (C12), derive (C01), simplify_expr (C06)", "HashMap/HashSet operations"]
    C.assume = ["usize arithmetic does not overflow (an expression has fewer than 2^64 nodes)", "symbols given to differentiate are named"]
    contractual(C)
    for a, st, why, fns in par.run(w_free, [(n, k) for n in ("diff", "simplify") for k in (None, 0, 1, 2)], C):
        C.fns.update(fns); C.ob(f"defaults/{a[0]}/" + ("no list" if a[1] is None else f"{a[1]} functions"), st, why, bounded="exactly these numbers of names" if st == H.PROVED else None)
    bounded(C)
    rec.refuted(C)
    C.finish()
