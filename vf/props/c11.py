"""C11: equality, hashing and ordering of expressions agree with each other.
eq, hash and the canonical comparison verified kind by kind with the calls on children replaced by contracts (an arbitrary
equivalence, an arbitrary hash function of its classes, an arbitrary total preorder)."""
import random, itertools
from .. import term as tm, mir, sym, models, den, rec, harness as H, replay as R, oracle as O, par, bnd as BND_
from ..term import num, var, mk, fn, ZERO, ONE
from ..sym import Sym, SymV, Ptr, Cell, VecV, Adt, ArcV, Opaque, Tup, UNIT
from . import c17
EX = "symb_anafis::core::expr::"; ORD = EX + "ordering::"
_ST = None
def at(ex, v):
    """the expression node behind a value: (key, node)"""
    v = den.strip(ex, v)
    if v is ex.ghost.get("copy"): return rec.key(ex, ex.ghost["tops"][0]), v
    return rec.key(ex, v), v
def ordering(ex, s): i = ex.prog.adts["std::cmp::Ordering"][0]; return Adt(i, {-1: 0, 0: 1, 1: 2}[s], [])
def sign(ex, v): return ex.need_adt(ex.force(v)).var - 1
def rank_cmp(ex, what, a, b):
    """an arbitrary total preorder: nodes compare as their ranks"""
    if a == b: return 0
    x, y = var(f"{what}:{a}"), var(f"{what}:{b}")
    if ex.branch(ex.cmp("lt", x, y)): return -1
    return 0 if ex.branch(ex.cmp("eq", x, y)) else 1
def common(p):
    cs = dict(den.base_contracts(p))
    for f in p.fns:
        d = f["def"]
        if d == "<slotmap::DefaultKey as std::cmp::Ord>::cmp" or d.endswith("InternedSymbol as std::cmp::Ord>::cmp"):
            def c_sym(ex, fn_, a):
                x, y = den.symval(ex, a[0]), den.symval(ex, a[1]); return ordering(ex, rank_cmp(ex, "symbol", ex.sym_name(x)[1], ex.sym_name(y)[1]))
            cs[d] = c_sym
        if d.endswith("f64>::to_bits") or d.endswith("::to_bits"): cs[d] = lambda ex, fn_, a: fn("bits", ex.num_of(a[0]))
    return cs
def lazy_one(ex): return ArcV(Cell(den.mknumber(ex, ONE)))
LAZY = {EX + "EXPR_ONE": lazy_one}
def make(ex, ly, shape, nm):
    """a node of the given kind; children are arbitrary expressions"""
    kind, ar, pt = shape; n, ka = rec.setup(ex, ly, kind, ar, nm=nm, poly=pt); ex.ghost.setdefault("ka", {})[nm] = ka; return n
# ------------------------------------------------------------------ comparison
def infeasible(ex):
    """no real values of the ranks and payloads satisfy what the path found out"""
    import z3
    s = z3.Solver(); V = {}
    def go(t):
        if t.op == "num": return z3.RealVal(str(t.a[0]))
        return V.setdefault(t, z3.Real(f"v{len(V)}"))
    for b, v in ex.facts.items():
        if b.op not in ("lt", "eq", "le"): continue
        x, y = go(b.a[0]), go(b.a[1]); c = x < y if b.op == "lt" else x == y if b.op == "eq" else x <= y
        s.add(c if v else z3.Not(c))
    return s.check() == z3.unsat
def cmp_contracts(p, which, tops):
    cs = common(p)
    def c_cmp(ex, fn_, a):
        (i, _), (j, _) = at(ex, a[0]), at(ex, a[1]); return ordering(ex, rank_cmp(ex, "rank", i, j))
    def c_strict(ex, fn_, a):
        (i, _), (j, _) = at(ex, a[0]), at(ex, a[1]); return ordering(ex, rank_cmp(ex, "strict", i, j))
    def c_part(nm):
        def h(ex, fn_, a):
            k, v = at(ex, a[0])
            if any(v is t for t in ex.ghost["tops"]): return NotImplemented
            c = ex.ghost.setdefault("parts", {}); return c.setdefault((nm, k), Ptr(Cell(Sym(f"{nm}:{k}", ex.ghost["ly"].EX))))
        return h
    cs[ORD + "expr_cmp"] = c_cmp
    if which == "expr_cmp":
        cs[ORD + "expr_cmp_type_strict"] = c_strict; cs[ORD + "get_base"] = c_part("base"); cs[ORD + "get_exponent"] = c_part("exponent")
    return cs
def w_cmp(a):
    which, shapes = a; C, p, ly = _ST; sym.EXEC.clear(); f = p.fn(ORD + which)
    if f is None: return a, H.UNDECIDED, which + " not found", [], None
    cs = cmp_contracts(p, which, None); signs = set(); same = len(shapes) == 2 and shapes[1] == "same"
    def run(ex):
        ex.ghost["ly"] = ly
        T = [make(ex, ly, s, "ABC"[i]) for i, s in enumerate(shapes) if s != "same"]
        if same:
            # an equal node: the same children and payload in another node
            o = ex.need_adt(T[0]); fs = list(o.f); fs[ly.ef["id"]] = var("otherid") if "id" in ly.ef else None
            T.append(Adt(o.ty, o.var, [x for x in fs])); ex.ghost["copy"] = T[-1]
        ex.ghost["tops"] = T; P = [Ptr(Cell(t)) for t in T]
        go = lambda i, j: sign(ex, ex.run(f, [P[i], P[j]]))
        if len(T) == 2: return (go(0, 1), go(1, 0))
        return (go(0, 1), go(1, 2), go(0, 2))
    def judge(ex, v):
        if len(v) == 2:
            if same: return (H.PROVED, "") if v == (0, 0) else (H.REFUTED, f"a node and an equal node compare {v[0]}")
            signs.add(v[0])
            return (H.PROVED, "") if v[0] == -v[1] else (H.REFUTED, f"cmp(a, b) = {v[0]} but cmp(b, a) = {v[1]}")
        ab, bc, ac = v
        if infeasible(ex): raise sym.Infeasible()
        if ab <= 0 and bc <= 0 and (ac > 0 or (ac == 0) != (ab == 0 and bc == 0)): return H.REFUTED, f"cmp(a, b) = {ab}, cmp(b, c) = {bc}, cmp(a, c) = {ac}"
        if ab >= 0 and bc >= 0 and (ac < 0 or (ac == 0) != (ab == 0 and bc == 0)): return H.REFUTED, f"cmp(a, b) = {ab}, cmp(b, c) = {bc}, cmp(a, c) = {ac}"
        return H.PROVED, ""
    st, why, k = rec.drive(C, p, cs, "", run, judge, max_paths=6000, budget=60, opts={"lazy": LAZY, "max_dec": 60, "nopanic": lambda pe, e: True})
    return a, st, why, list(sym.EXEC), sorted(signs)
# ------------------------------------------------------------------ equality
def eqrel(ex, what, a, b):
    """an arbitrary equivalence on children, decided once per pair"""
    if a == b: return True
    d = ex.ghost.setdefault("eqrel", {}); k = (what,) + tuple(sorted((str(a), str(b))))
    if k not in d: d[k] = ex.choose(2, f"{a} equals {b}") == 0
    return d[k]
def w_eq(a):
    kind, s1, s2 = a; C, p, ly = _ST; sym.EXEC.clear(); cs = common(p)
    f = p.fn(f"<{EX}{'Expr' if kind == 'Expr' else 'ExprKind'} as std::cmp::PartialEq>::eq")
    if f is None: return a, H.UNDECIDED, "eq not found", []
    def c_eq(ex, fn_, x):
        (i, _), (j, _) = at(ex, x[0]), at(ex, x[1]); return eqrel(ex, "expr", i, j)
    if kind != "Expr": cs[f"<{EX}Expr as std::cmp::PartialEq>::eq"] = c_eq
    else:
        def c_keq(ex, fn_, x):
            r = ex.choose(2, "kinds equal") == 0; ex.ghost["keq"] = r
            if r: ex.assume(ex.cmp("eq", var("hashA"), var("hashB")))
            return r
        cs[f"<{EX}ExprKind as std::cmp::PartialEq>::eq"] = c_keq
    def hook(ex, x, y):
        if ex.ghost.get("judging"): return None
        for z in (x, y):
            if not (isinstance(z, (Sym, Adt)) and z.ty == ly.EX): return None
        return eqrel(ex, "expr", at(ex, x)[0], at(ex, y)[0])
    def run(ex):
        A, B = make(ex, ly, s1, "A"), make(ex, ly, s2, "B"); ex.ghost["AB"] = A, B
        if kind == "Expr":
            out = []
            for X, h in ((A, "hashA"), (B, "hashB")):
                o = ex.need_adt(X); fs = list(o.f); fs[ly.ef["hash"]] = var(h); ex.ints.add(var(h)); ex.nn.add(var(h)); out.append(Adt(o.ty, 0, fs))
            if ex.choose(2, "same node") == 0: out[1] = out[0]; ex.ghost["one"] = True
            r = ex.branch(ex.run(f, [Ptr(Cell(x)) for x in out]))
            if "keq" not in ex.ghost: ex.ghost["heq"] = ex.decide(ex.cmp("eq", var("hashA"), var("hashB")))
            return r
        k = [ex.ghost["ka"]["A"], ex.ghost["ka"]["B"]]
        return ex.branch(ex.run(f, [Ptr(Cell(x)) for x in k]))
    def judge(ex, r):
        if kind == "Expr":
            if "keq" in ex.ghost: return (H.PROVED, "") if r is ex.ghost["keq"] else (H.REFUTED, f"answers {r} for {'equal' if ex.ghost['keq'] else 'different'} contents")
            if ex.ghost.get("one"): return (H.PROVED, "") if r else (H.REFUTED, "a node differs from itself")
            return (H.PROVED, "") if r is False and ex.ghost["heq"] is False else (H.REFUTED, f"answers {r} without comparing the contents")
        A, B = ex.ghost["AB"]; ka, kb = ex.ghost["ka"]["A"], ex.ghost["ka"]["B"]
        if s1[0] != s2[0]: return (H.PROVED, "") if r is False else (H.REFUTED, "different kinds are equal")
        g1, g2 = dict(zip(ly.kf[s1[0]], ka.f)), dict(zip(ly.kf[s1[0]], kb.f)); c1, c2 = rec.children(ex, ly, s1[0], ka), rec.children(ex, ly, s1[0], kb)
        d = ex.ghost.get("eqrel", {}); K = lambda x, y: d.get(("expr",) + tuple(sorted((str(at(ex, x)[0]), str(at(ex, y)[0])))))
        num_eq = lambda x, y: ex.decide(ex.cmp("eq", ex.num_of(x), ex.num_of(y)))
        sy = lambda x, y: ex.decide_sym(x, y) if hasattr(ex, "decide_sym") else (ex.sym_name(den.symval(ex, x))[1] == ex.sym_name(den.symval(ex, y))[1] or (None if not same_known(ex, den.symval(ex, x), den.symval(ex, y)) else False))
        pay = []
        if s1[0] == "Number": pay = [num_eq(ka.f[0], kb.f[0])]
        if s1[0] == "Symbol": pay = [sy(ka.f[0], kb.f[0])]
        if s1[0] == "FunctionCall": pay = [sy(g1["name"], g2["name"])]
        if s1[0] == "Derivative": pay = [sy(g1["var"], g2["var"]), num_eq(g1["order"], g2["order"])]
        if s1[0] == "Poly":
            t1, t2 = [[ex.force(x) for x in ex.need_vec(ex.need_adt(den.strip(ex, k.f[0])).f[ly.pf["terms"]]).e] for k in (ka, kb)]
            if len(t1) != len(t2): pay = [False]
            else: pay = [num_eq(x.f[i], y.f[i]) for x, y in zip(t1, t2) for i in (0, 1)]
        if len(c1) != len(c2): return (H.PROVED, "") if r is False else (H.REFUTED, "nodes with different numbers of operands are equal")
        inorder = [K(x, y) for x, y in zip(c1, c2)] + pay
        if r is False: return (H.PROVED, "") if any(x is False for x in inorder) else (H.REFUTED, f"different although nothing was found to differ ({inorder})")
        if all(x is True for x in pay):
            perms = [list(zip(c1, q)) for q in itertools.permutations(c2)] if s1[0] in ("Sum", "Product") else [list(zip(c1, c2))]
            if any(all(K(x, y) is True for x, y in q) for q in perms): return H.PROVED, ""
        return H.REFUTED, f"equal although not shown: children and payload {inorder}"
    st, why, k = rec.drive(C, p, cs, "", run, judge, opts={"max_dec": 40, "nopanic": lambda pe, e: True, "eq": hook})
    return a, st, why, list(sym.EXEC)
def same_known(ex, a, b):
    try: return ex.sym_eq_known(a, b) is False
    except AttributeError: return True
# ------------------------------------------------------------------ hash
def w_hash(a):
    shape = a; C, p, ly = _ST; sym.EXEC.clear(); cs = common(p); f = p.fn(f"<{EX}ExprKind as std::hash::Hash>::hash")
    if f is None: return a, H.UNDECIDED, "hash not found", []
    def ev(ex, v):
        v = ex.force(v)
        while isinstance(v, (Ptr, ArcV)): v = ex.force(ex.load(v))
        if isinstance(v, bool) or isinstance(v, int) or isinstance(v, tm.T): return ("n", ex.nf(ex.num_of(v)))
        if isinstance(v, (SymV, sym.IdV)) : return ("s", ex.sym_name(v if isinstance(v, SymV) else v.s)[1])
        if isinstance(v, VecV): return ("v", len(v.e), tuple(ev(ex, x) for x in v.e))
        if isinstance(v, (Adt, Sym)) and v.ty == ly.EX: return ("e", ex.nf(ex.num_of(ex.need_adt(v).f[ly.ef["hash"]])))
        if isinstance(v, (Adt, Sym)):
            try: return ("s", ex.sym_name(den.symval(ex, v))[1])
            except Exception: pass
        raise sym.Unsupported(f"hash of {type(v).__name__}")
    cur = lambda ex: ex.ghost.setdefault("log", [])
    def c_hash(ex, fn_, x):
        ex.ghost.setdefault("logs", {}).setdefault(id(ex.force(x[1]).c) if isinstance(ex.force(x[1]), Ptr) else 0, []).append(ev(ex, x[0])); return UNIT
    for g in p.fns:
        d = g["def"]
        if d.endswith("::hash") and not d.endswith("ExprKind as std::hash::Hash>::hash") and "Hash" in d: cs[d] = c_hash
        if d.endswith("Hasher>::finish") or d.endswith("Hasher::finish"):
            def c_fin(ex, fn_, x):
                l = ex.ghost.setdefault("logs", {}).get(id(ex.force(x[0]).c), []); t = [e[1] for e in l]
                return fn("hashof", *[y if isinstance(y, tm.T) else var(str(y)) for y in t])
            cs[d] = c_fin
        if d.endswith("::wrapping_add"): cs[d] = lambda ex, fn_, x: tm.add(ex.num_of(x[0]), ex.num_of(x[1]))
    def run(ex):
        A = make(ex, ly, shape, "A"); ka = ex.ghost["ka"]["A"]
        ch = rec.children(ex, ly, shape[0], ka); out = []
        def variant(side, memo={}):
            """the same node with every child replaced by an equal one: another node with the same hash"""
            def rep(v):
                k = at(ex, v)[0]; h = var(f"hash:{k}"); kid = Sym(f"kind{side}:{k}", ly.KI)
                fs = [None] * len(ly.ef); fs[ly.ef["hash"]] = h; fs[ly.ef["kind"]] = kid
                if "id" in ly.ef: fs[ly.ef["id"]] = var(f"id{side}:{k}")
                return ArcV(Cell(Adt(ly.EX, 0, fs)))
            kind = shape[0]; f_ = list(ka.f)
            if kind in ("Sum", "Product"): f_[0] = VecV([rep(c) for c in ch])
            elif kind == "FunctionCall": i = ly.kf[kind].index("args"); f_[i] = VecV([rep(c) for c in ch])
            elif kind in ("Div", "Pow"): f_ = [rep(c) for c in ch]
            elif kind == "Derivative": i = ly.kf[kind].index("inner"); f_[i] = rep(ch[0])
            elif kind == "Poly":
                po = ex.need_adt(den.strip(ex, ka.f[0])); pf = list(po.f); pf[ly.pf["base"]] = rep(ch[0]); f_[0] = Adt(po.ty, 0, pf)
            return Adt(ka.ty, ka.var, f_)
        for side in "12":
            st = Cell(Opaque("hasher")); ex.ghost["st" + side] = st
            ex.run(f, [Ptr(Cell(variant(side))), Ptr(st)]); out.append(list(ex.ghost.get("logs", {}).get(id(st), [])))
        return out
    def judge(ex, v):
        a_, b_ = v
        if not a_: return H.UNDECIDED, "nothing hashed"
        return (H.PROVED, "") if a_ == b_ else (H.REFUTED, f"equal nodes feed different data to the hasher: {a_} and {b_}")
    st, why, k = rec.drive(C, p, cs, "", run, judge, opts={"max_dec": 40, "nopanic": lambda pe, e: True})
    return a, st, why, list(sym.EXEC)
SH = [("Number", None, None), ("Symbol", None, None), ("FunctionCall", 0, None), ("FunctionCall", 1, None), ("FunctionCall", 2, None), ("Sum", 2, None), ("Sum", 3, None), ("Product", 2, None), ("Product", 3, None), ("Div", None, None), ("Pow", None, None), ("Derivative", None, None), ("Poly", None, 1), ("Poly", None, 2)]
lab = lambda s: "same" if s == "same" else c17.label(s) if False else s[0] + (f" of {s[1]}" if s[1] is not None else "") + (f" of {s[2]} terms" if s[2] is not None else "")
bnd = lambda *ss: "exactly these numbers of operands" if any(s != "same" and (s[1] is not None or s[2] is not None) for s in ss) else None
def contractual(C):
    global _ST
    p = mir.prog(); ly = den.lay(p); _ST = C, p, ly
    T = []
    byk = {}
    for s in SH: byk.setdefault(s[0], []).append(s)
    for w in ("expr_cmp_type_strict", "expr_cmp"):
        T += [(w, (s, "same")) for s in SH] + [(w, (a, b)) for a, b in itertools.combinations_with_replacement(SH, 2)]
    for k, l in byk.items():
        l = [s for s in l if (s[1] or 0) <= (3 if C.thorough else 2)]
        T += [("expr_cmp_type_strict", t) for t in itertools.product(l, repeat=3) if len(set(t)) < 3 or k != "FunctionCall" or C.thorough]
    rep = [("Symbol", None, None), ("Pow", None, None), ("Product", 2, None), ("Poly", None, 1)]
    T += [("expr_cmp", t) for t in itertools.product(rep, repeat=3)]
    table = {}
    for a, st, why, fns, signs in par.run(w_cmp, T, C):
        C.fns.update(fns); w, s = a
        C.ob(f"{w}/" + ("reflexive" if s[-1] == "same" else "antisymmetric" if len(s) == 2 else "transitive") + "/" + ", ".join(lab(x) for x in s if x != "same"), st, why, bounded=bnd(*s) if st == H.PROVED else None)
        if w == "expr_cmp_type_strict" and len(s) == 2 and s[1] != "same" and s[0][0] != s[1][0]:
            table.setdefault((s[0][0], s[1][0]), set()).update(signs); table.setdefault((s[1][0], s[0][0]), set()).update(-x for x in signs)
    ks = sorted({k for k, _ in table}); bad = None
    for a, b in table:
        if len(table[a, b]) != 1 or table[a, b] == {0}: bad = f"{a} and {b} compare {sorted(table[a, b])}"
    for a, b, c in itertools.permutations(ks, 3):
        if not bad and table.get((a, b)) == {-1} and table.get((b, c)) == {-1} and table.get((a, c)) != {-1}: bad = f"{a} < {b} < {c} but {a} and {c} compare {sorted(table.get((a, c), []))}"
    C.ob("expr_cmp_type_strict/kinds are ranked", H.PROVED if not bad else H.REFUTED, bad or "")
    E = [("ExprKind", a, b) for a, b in itertools.product(SH, repeat=2) if a[0] == b[0] or a[0] < b[0]] + [("Expr", SH[1], SH[1])]
    for a, st, why, fns in par.run(w_eq, E, C):
        C.fns.update(fns); C.ob(f"{a[0]}::eq" + ("" if a[0] == "Expr" else f"/{lab(a[1])}, {lab(a[2])}"), st, why, bounded=bnd(a[1], a[2]) if st == H.PROVED else None)
    for a, st, why, fns in par.run(w_hash, SH, C):
        C.fns.update(fns); C.ob(f"hash/{lab(a)}", st, why, bounded=bnd(a) if st == H.PROVED else None)

# ------------------------------------------------------------------ bounded stand-ins on the real code
NAN, INF = float("nan"), float("inf")
def tree(r, d, special):
    k = r.random()
    if d <= 0 or k < .3:
        if r.random() < .5: return ("s", r.choice("xyz"))
        return ("n", r.choice((0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.0) + ((NAN, INF, -INF, NAN) if special else ())))
    t = lambda: tree(r, d - 1, special)
    if k < .45: return ("+", [t() for _ in range(r.randint(2, 3))])
    if k < .62: return ("*", [t() for _ in range(r.randint(2, 3))])
    if k < .7: return ("/", t(), t())
    if k < .8: return ("^", t(), t())
    if k < .88: return ("f", r.choice(("sin", "exp", "f")), [t() for _ in range(r.randint(1, 2))])
    if k < .93: return ("d", t(), r.choice("xy"), r.randint(1, 2))
    return ("P", t(), sorted({r.randint(0, 3): r.choice((1.0, -1.0, 2.0, 0.5) + ((NAN, INF) if special and r.random() < .3 else ())) for _ in range(r.randint(1, 3))}.items()))
def numeq(a, b): return a == b
def same(a, b, multi):
    """the same expression; with multi, up to the order of summands and factors"""
    if a[0] != b[0]: return False
    k = a[0]
    if k == "n": return a[1] == b[1]
    if k == "s": return a[1] == b[1]
    if k == "f": return a[1] == b[1] and len(a[2]) == len(b[2]) and all(same(x, y, multi) for x, y in zip(a[2], b[2]))
    if k in "+*":
        if len(a[1]) != len(b[1]): return False
        if all(same(x, y, multi) for x, y in zip(a[1], b[1])): return True
        return multi and any(all(same(x, y, multi) for x, y in zip(a[1], q)) for q in itertools.permutations(b[1]))
    if k == "d": return a[2:] == b[2:] and same(a[1], b[1], multi)
    if k == "P": return same(a[1], b[1], multi) and len(a[2]) == len(b[2]) and all(x[0] == y[0] and x[1] == y[1] for x, y in zip(a[2], b[2]))
    return same(a[1], b[1], multi) and same(a[2], b[2], multi)
def mutate(r, t):
    """a tree that differs in one place, or only in the order of operands, or not at all"""
    k = t[0]; c = O.children(t)
    if r.random() < .3 or not c:
        if k == "n": return ("n", r.choice((t[1], -t[1], t[1] + 1, 0.0)))
        if k == "s": return ("s", r.choice("xyz"))
        if k in "+*" and r.random() < .6: l = list(t[1]); r.shuffle(l); return (k, l)
        if k == "/": return (k, t[2], t[1])
        if k == "^": return (k, t[2], t[1])
        if k == "d": return (k, t[1], r.choice("xy"), r.randint(1, 2))
        if k == "P": return (k, t[1], [(p, v * r.choice((1.0, 2.0))) for p, v in t[2]])
        if k == "f": return (k, r.choice(("sin", "f", t[1])), t[2])
        return t
    if k in "+*": i = r.randrange(len(t[1])); l = list(t[1]); l[i] = mutate(r, l[i]); return (k, l)
    if k == "f": i = r.randrange(len(t[2])); l = list(t[2]); l[i] = mutate(r, l[i]); return (k, t[1], l)
    if k in "/^": return (k, mutate(r, t[1]), t[2]) if r.random() < .5 else (k, t[1], mutate(r, t[2]))
    return (k, mutate(r, t[1])) + tuple(t[2:])
def has_nan(t): return (t[0] == "n" and t[1] != t[1]) or (t[0] == "P" and any(c != c for _, c in t[2])) or any(has_nan(x) for x in O.children(t))
SG = {"Less": -1, "Equal": 0, "Greater": 1}
def ask(a, b):
    w = R.call(f"cmp {R.enc(a)} {R.enc(b)}", 10).split(); return w[0] == "true", w[1] == "true", w[2] == "true", SG[w[3]]
def fault(T):
    """what is inconsistent about three expressions"""
    M = {(i, j): ask(T[i], T[j]) for i in range(3) for j in range(3)}; S = [R.show(t) for t in T]
    for i in range(3):
        e, h, kh, c = M[i, i]
        if not has_nan(T[i]) and not e: return "reflexive", f"{S[i]} is not equal to itself"
        if not h or not kh: return "hash-stable", f"two nodes {S[i]} hash differently"
        if c: return "cmp-reflexive", f"two nodes {S[i]} compare {c}"
    for i in range(3):
        for j in range(3):
            e, h, kh, c = M[i, j]
            if e and not h: return "eq-hash", f"{S[i]} and {S[j]} are equal but hash differently"
            if e and not kh: return "eq-kindhash", f"{S[i]} and {S[j]} are equal but their contents hash differently"
            if e and c: return "eq-cmp", f"{S[i]} and {S[j]} are equal but compare {c}"
            if e != M[j, i][0]: return "symmetric", f"{S[i]} == {S[j]} is {e} but not the other way round"
            if e and not same(T[i], T[j], True): return "eq-different", f"{S[i]} and {S[j]} are equal"
            if not e and same(T[i], T[j], False): return "eq-same", f"{S[i]} and {S[j]} are not equal"
            if c != -M[j, i][3]: return "antisymmetric", f"cmp({S[i]}, {S[j]}) = {c}, cmp({S[j]}, {S[i]}) = {M[j, i][3]}"
    for i, j, k in itertools.permutations(range(3)):
        ab, bc, ac = M[i, j][3], M[j, k][3], M[i, k][3]
        if ab <= 0 and bc <= 0 and (ac > 0 or (ac == 0) != (ab == 0 and bc == 0)): return "transitive", f"a = {S[i]}, b = {S[j]}, c = {S[k]}: cmp(a, b) = {ab}, cmp(b, c) = {bc}, cmp(a, c) = {ac}"
        if M[i, j][0] and M[j, k][0] and not M[i, k][0]: return "eq-transitive", f"{S[i]} == {S[j]} == {S[k]} but not the first and the last"
    return None
def case(r, st):
    sp = r.random() < .4; a = tree(r, r.choice((0, 1, 1, 2, 2, 3)), sp); T = [a, mutate(r, a) if r.random() < .7 else tree(r, 2, sp), None]; T[2] = mutate(r, r.choice(T[:2])) if r.random() < .7 else tree(r, 2, sp)
    w = fault(T)
    if not w: st["special" if sp else "plain"] += 1; return None
    rule = w[0]
    for i in range(3):
        def bad(c, i=i): q = T[:i] + [c] + T[i + 1:]; v = fault(q); return bool(v) and v[0] == rule
        T[i] = BND_.shrunk(T[i], bad, 80)
    w = fault(T) or w
    return f"{w[0]}: {' | '.join(R.show(t) for t in T)}", w[1], {"requests": [f"cmp {R.enc(x)} {R.enc(y)}" for x in T for y in T]}
def ctor_case(r, st):
    """results of every operation that builds expressions carry the hash of the same expression built anew"""
    a, b = tree(r, 2, False), tree(r, 2, False); op = r.choice(("sum", "product", "div", "pow", "neg", "sub", "add", "mul", "simp", "simp", "evaluate", "evaluate", "subst", "subst", "diff", "draw", "clone", "parse"))
    if op in ("evaluate", "subst", "diff", "simp") and r.random() < .4: a = ("P", a, sorted({r.randint(0, 4): r.choice((1.0, -1.0, 2.0, 3.0)) for _ in range(r.randint(2, 3))}.items()))
    if r.random() < .3: a = r.choice((("+", [a, b]), ("*", [a, b]), ("f", "f", [a, b])))
    ea, eb = R.enc(a), R.enc(b); v = r.choice("xyz")
    line = {"simp": f"simp {r.choice((0, 1))} {ea}", "evaluate": f"evaluate 1 {v} {R.hx(r.choice((0.0, 1.0, 2.0, -0.5)))} {ea}", "subst": f"subst {v} {ea} {eb}", "diff": f"diff {v} 0 {r.choice((0, 1))} - - 0 {ea}", "draw": f"draw {v} {ea}", "clone": f"clone {ea}", "parse": ""}.get(op)
    if line is None: line = f"mk {op} 2 {ea} {eb}"
    try:
        R.call("stale", 10)
        if op == "parse":
            s = R.call(f"disp {ea}", 10); line = f"parse {s} 0 0"
        R.call(line, 10); w = R.call("stale", 10)
    except (R.RPanic, R.Timeout): st["fails"] += 1; return None
    st[op] += 1
    if w != "-" and not has_nan(R.dec(w)): return f"hash of {R.show(R.dec(w))} from {op}", f"{line.split()[0]} gives {R.show(R.dec(w))} with a hash that is not the hash of its contents", {"requests": [line, "stale"]}
    return None
def sort_case(r, st):
    """sums and products of operands with special numbers are built and simplified without a panic, whatever their order"""
    n = r.choice((3, 8, 25, 40)); l = [tree(r, r.choice((0, 1, 2)), True) for _ in range(n)]; op = r.choice(("sum", "product")); line = f"mk {op} {n} " + " ".join(R.enc(t) for t in l); st[op] += 1
    try: R.call(line, 20)
    except R.RPanic as e: return f"sort {op} {n}", f"{op} of {n} operands panics: {e}", {"request": line}
    return None
def bounded(C):
    BND_.run(C, "triples", case, 8000, 80000, "random triples of related expressions of depth at most 3, two in five with NaN and infinities", per=200)
    BND_.run(C, "carried hashes", ctor_case, 4000, 40000, "results of constructors, simplification, evaluation, substitution, differentiation, copying and parsing", per=200, seed=3)
    BND_.run(C, "sorting", sort_case, 4000, 40000, "sums and products of up to 40 operands with NaN and infinities", per=100, seed=5)
def main():
    C = H.Check("C11")
    C.trusted = ["the MIR semantics of vf/sym.py", "the library's Hash implementations of Vec, Arc, integers and discriminants feed equal data for equal values", "a node's hash field is the hash of its contents (Expr::new; checked on results of constructors: bounded)"]
    C.assume = ["numbers are mathematical reals in the contracts; NaN and infinities are covered by the bounded triples", "equality of NaN with itself is IEEE (not reflexive) and is left out"]
    contractual(C); bounded(C); rec.refuted(C); C.finish()
