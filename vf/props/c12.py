"""C12: parsing follows standard precedence and implicit multiplication.
The Pratt parser's methods are verified against a reading of the grammar, over a token stream of arbitrary length: a recursive
parse_expr(min) is replaced by its contract (it either fails or consumes some tokens, returns what they denote, and stops in front of a
token that is not an infix operator of precedence >= min).  The implicit-multiplication pass is verified over all pairs of token kinds,
the operator tables for every operator.  The lexer (text to tokens) is compared on bounded inputs only."""
import random
from .. import term as tm, mir, sym, models, den, rec, harness as H, par, replay as R
from ..term import num, mk, var, fn, ZERO, ONE
from ..sym import Ex, explore, Sym, SymV, StrSym, IdV, Ptr, Cell, ArcV, VecV, Adt, MapV, Opaque, Tup
from . import c12b
P = "symb_anafis::parser::"
PR = P + "pratt::Parser::<'_, 'src>::"
INFIX = ["Add", "Sub", "Mul", "Div", "Pow"]
PREC = {"Add": 1, "Sub": 1, "Mul": 2, "Div": 2, "Pow": 3}
ARITY = {"Atan2": (2,), "Polygamma": (2,), "Beta": (2,), "ZetaDeriv": (2,), "BesselJ": (2,), "BesselY": (2,), "BesselI": (2,), "BesselK": (2,), "Hermite": (2,), "AssocLegendre": (3,), "Ynm": (4,), "Log": (1, 2)}
_ST = None
class Lay:
    def __init__(self, p):
        self.TOK = p.adt(P + "tokens::Token"); self.OP = p.adt(P + "tokens::Operator"); self.PAR = p.adt(P + "pratt::Parser")
        self.tv = {v["n"]: i for i, v in enumerate(p.types[self.TOK]["v"])}
        self.ov = {v["n"]: i for i, v in enumerate(p.types[self.OP]["v"])}; self.on = [v["n"] for v in p.types[self.OP]["v"]]
        self.pf = [n for n, _ in p.types[self.PAR]["v"][0]["f"]]
        self.df = [n for n, _ in p.types[self.TOK]["v"][self.tv["Derivative"]]["f"]]
def concrete(p, f, args):
    """run a table function on a concrete operator"""
    ex = Ex(p, {}, models, (), den.opts(max_dec=5, max_steps=5000)); v = ex.run(f, args); return ex, v
# ------------------------------------------------------------------ token streams
def op_val(ly, n): return Adt(ly.OP, ly.ov[n], [])
def strv(ex, s): return s
def make_tok(ex, ly, cls, tag):
    A = lambda n, *f: Adt(ly.TOK, ly.tv[n], list(f))
    if cls == "num": return A("Number", var("num" + tag))
    if cls == "id": return A("Identifier", "id" + tag)
    if cls == "(": return A("LeftParen")
    if cls == ")": return A("RightParen")
    if cls == ",": return A("Comma")
    if cls == "der": return Adt(ly.TOK, ly.tv["Derivative"], [{"order": var("ord" + tag), "func": "df" + tag, "args": VecV(()) if ex.ghost.get("noargs") else Opaque("toks:args" + tag), "var": "dv" + tag}[n] for n in ly.df])
    if cls == "other":
        s = Sym("tok" + tag, ly.TOK); x = ex.excl.setdefault(s.id, set()); V = {"num": "Number", "id": "Identifier", "(": "LeftParen", ")": "RightParen", ",": "Comma", "der": "Derivative"}
        for c in ex.ghost["classes"]: x.add(ly.tv[V.get(c, "Operator")]) if c not in (None, "other") else None
        return s
    return A("Operator", op_val(ly, cls if cls != "fn" else ex.ghost.get("fnop", "Sin")))
def pos_key(ex, pos):
    t = ex.nf(ex.num_of(pos)); return tm.show(t)
def tok(ex, base, pos, classes=None):
    """the token at a position: chosen once per path among the classes of this obligation (None = end of input)"""
    T = ex.ghost.setdefault("toks", {}); k = (base, pos_key(ex, pos))
    if k not in T:
        cl = classes or ex.ghost["classes"]
        bad = ex.ghost.get("notok", {}).get(k, ())
        cl = [c for c in cl if c not in bad]
        if ex.ghost.get("ncalls", 0) >= ex.ghost.get("limit", 3): cl = [c for c in cl if c not in INFIX and c != ","] or [None]
        c = cl[ex.choose(len(cl), "token " + str(k))] if len(cl) > 1 else cl[0]
        T[k] = (c, None if c is None else Ptr(Cell(make_tok(ex, ex.ghost["ly"], c, f"#{len(T)}"))))
    return T[k]
def c_get(ex, f, a):
    v = ex.deref_all(a[0])
    if isinstance(v, Opaque) and str(v.what).startswith("toks"):
        c, p = tok(ex, v.what, ex.deref_all(a[1])); return models.none(ex) if c is None else models.some(ex, p)
    return NotImplemented
def c_len(ex, f, a):
    v = ex.deref_all(a[0])
    if isinstance(v, Opaque) and str(v.what).startswith("toks"):
        c, _ = tok(ex, v.what, 0)
        if f["def"].endswith("is_empty"): return c is None
        raise sym.Unsupported("length of a token stream")
    return NotImplemented
def c_deref(ex, f, a):
    v = ex.deref_all(a[0]); return Ptr(Cell(v)) if isinstance(v, Opaque) and str(v.what).startswith("toks") else NotImplemented
def stop_ops(m): 
    """infix operators a call with this minimum precedence consumes"""
    return tuple(n for n in INFIX if _ST[4][n] >= m)
def parser_of(ex, a):
    ly = ex.ghost["ly"]; v = ex.need_adt(ex.deref_all(a)); g = dict(zip(ly.pf, v.f))
    return v, ex.deref_all(g["tokens"]).what, g["pos"]
def record(ex, self_, m, what):
    """contract of a recursive call"""
    ly = ex.ghost["ly"]; v, base, pos = parser_of(ex, self_); n = ex.ghost["ncalls"] = ex.ghost.get("ncalls", 0) + 1
    end = var(f"i.q{n}"); ex.ints.add(end); ex.nn.add(end)
    fail = ex.choose(2, "inner failure") == 1
    ex.ghost.setdefault("calls", []).append((what, base, pos_key(ex, pos), m, end, n, fail))
    if fail: return models.err(ex, Opaque("inner error"))
    i = ly.pf.index("pos"); fs = list(v.f); fs[i] = end
    ex.store(self_ if isinstance(self_, Ptr) else self_, Adt(v.ty, v.var, fs))
    if m is not None: ex.ghost.setdefault("notok", {})[(base, pos_key(ex, end))] = stop_ops(m)
    return models.ok(ex, den.mkexpr(ex, var(f"E{n}")))
def c_expr(ex, f, a):
    if ex.ghost.pop("enter", None) == "expr": return NotImplemented
    m = ex.deref_all(a[1])
    if not isinstance(m, int): m = ex.as_index(m)
    return record(ex, a[0], m, "expr")
def c_prefix(ex, f, a):
    if ex.ghost.pop("enter", None) == "prefix": return NotImplemented
    return record(ex, a[0], None, "prefix")
def name_of(ex, v):
    v = ex.deref_all(v)
    if isinstance(v, Adt): v = ex.deref_all(v.f[0])
    return v
def contracts(p):
    cs = dict(den.base_contracts(p))
    for f in p.fns:
        d = f["def"]
        if d == "std::slice::<impl [T]>::get": cs[d] = c_get
        if d == "std::vec::Vec::<T, A>::is_empty" or d == "std::slice::<impl [T]>::is_empty": cs[d] = c_len
        if d == "<std::vec::Vec<T, A> as std::ops::Deref>::deref": cs[d] = c_deref
    cs[PR + "parse_expr"] = c_expr; cs[PR + "parse_prefix"] = c_prefix
    C = den.CTOR
    def funcm(ex, f, a): return den.mkcall(ex, ex.known_symbol(name_of(ex, a[0])), den.items(ex, a[1]))
    def symb(ex, f, a): return den.mkkind(ex, "Symbol", [ex.known_symbol(name_of(ex, a[0]))])
    cs[C + "func_multi"] = funcm; cs[C + "symbol"] = symb
    cs["symb_anafis::core::unified_context::Context::symb"] = lambda ex, f, a: Opaque(("ctxsym", name_of(ex, a[1])))
    for f in p.fns:
        if f["def"].endswith("Symbol::to_expr"): cs[f["def"]] = lambda ex, f_, a: den.mkkind(ex, "Symbol", [ex.known_symbol(ex.deref_all(a[0]).what[1])])
    def deriv(ex, f, a):
        from . import c01
        return den.mkkind(ex, "Derivative", c01.dfields(ex, a[0], ex.known_symbol(name_of(ex, a[1])), a[2]))
    cs[C + "derivative"] = deriv
    for n in ("tokens::Token::<'_>::to_user_string",): cs[P + n] = lambda ex, f, a: Opaque("string")
    return cs
# ------------------------------------------------------------------ reading of the grammar over the same token table
class Fail(Exception): pass
class Wrong(Exception): pass
class Read:
    """what the method must do, given the token table and the answers of the recursive calls"""
    def __init__(self, ex, base, pos): self.ex = ex; self.base = base; self.pos = pos; self.calls = list(ex.ghost.get("calls", [])); self.i = 0
    def at(self, pos=None):
        k = (self.base, pos_key(self.ex, self.pos if pos is None else pos)); T = self.ex.ghost.get("toks", {})
        if k not in T: raise Wrong(f"does not look at the token at {k[1]}")
        return T[k]
    def step(self): self.pos = tm.add(self.ex.num_of(self.pos), ONE)
    def call(self, what, accept):
        if self.i >= len(self.calls): raise Wrong(f"a sub-expression at {pos_key(self.ex, self.pos)} is not parsed")
        w, b, k, m, end, n, fail = self.calls[self.i]; self.i += 1
        if b != self.base or k != pos_key(self.ex, self.pos): raise Wrong(f"a sub-expression is parsed at {k} instead of {pos_key(self.ex, self.pos)}")
        if w != what: raise Wrong(f"parses {w} where {what} is expected")
        if m is not None and set(stop_ops(m)) != set(accept): raise Wrong(f"the operand at {k} takes in {sorted(stop_ops(m))} instead of {sorted(accept)}")
        if fail: raise Fail()
        self.pos = end; return var(f"E{n}")
    def args(self):
        if self.at()[0] == ")": return []
        out = []
        while True:
            out.append(self.call("expr", INFIX)); c = self.at()[0]
            if c == ",": self.step()
            elif c == ")": return out
            else: raise Fail()
    def close(self):
        if self.at()[0] != ")": raise Fail()
        self.step()
    def prefix(self):
        c, p = self.at()
        if c is None: raise Fail()
        t = self.ex.need_adt(self.ex.load(p)) if c != "other" else None
        if c == "num": self.step(); return self.ex.num_of(t.f[0])
        if c == "id":
            self.step(); nm = t.f[0]
            if self.at()[0] == "(":
                self.step(); a = self.args(); self.close(); return ("call", nm, a)
            return var("s:" + nm)
        if c == "fn" or c in self.ex.ghost["ly"].ov and c not in INFIX:
            op = self.ex.ghost.get("fnop", "Sin"); self.step()
            if self.at()[0] != "(": raise Fail()
            self.step(); a = self.args(); self.close()
            if len(a) < _ST[5][op]: raise Fail()
            return ("call", _ST[6][op], a)
        if c == "Sub": self.step(); return tm.neg(self.call("expr", ["Pow"]))
        if c == "Add": self.step(); return self.call("expr", ["Pow"])
        if c == "(":
            self.step(); e = self.call("expr", INFIX); self.close(); return e
        if c == "der":
            self.step(); g = dict(zip(self.ex.ghost["ly"].df, t.f)); ar = self.ex.deref_all(g["args"])
            if isinstance(ar, VecV) : return ("der", g["func"], [var("s:" + g["var"])], g["var"], g["order"])
            sub = Read(self.ex, ar.what, 0); sub.calls = self.calls; sub.i = self.i
            if sub.at()[0] is None: return ("der", g["func"], [var("s:" + g["var"])], g["var"], g["order"])
            a = []
            while sub.at()[0] is not None:
                a.append(sub.call("expr", INFIX)); c2 = sub.at()[0]
                if c2 == ",": sub.step()
                elif c2 is None: break
                else: raise Fail()
            self.i = sub.i; return ("der", g["func"], a, g["var"], g["order"])
        raise Fail()
    def expr(self, m):
        left = self.call("prefix", None)
        while True:
            c = self.at()[0]
            if c not in INFIX or _ST[4][c] < m: return left
            self.step()
            r = self.call("expr", [n for n in INFIX if PREC[n] > PREC[c] or c == "Pow" and n == "Pow"])
            left = {"Add": tm.add, "Sub": tm.sub, "Mul": tm.mul, "Div": tm.div, "Pow": den.powd}[c](left, r)
def eq(ex, want, v):
    if isinstance(want, tuple):
        k = den.kind_of(ex, den.strip(ex, v)); kn = rec.kindname(ex, v)
        if want[0] == "der":
            if kn != "Derivative": return f"gives {kn} instead of a derivative"
            g = dict(zip(den.lay(ex.prog).kf["Derivative"], k.f))
            if ex.sym_name(ex.force(g["var"]))[0] != want[3]: return "another differentiation variable"
            if tm.prove_eq(ex.nf(ex.num_of(g["order"])), ex.nf(ex.num_of(want[4]))) is not True: return "another order"
            return eq(ex, ("call", want[1], want[2]), g["inner"])
        if kn != "FunctionCall": return f"gives {kn} instead of a call"
        g = dict(zip(den.lay(ex.prog).kf["FunctionCall"], k.f)); nm = ex.sym_name(ex.force(g["name"]))[0]
        if nm != want[1]: return f"calls {nm} instead of {want[1]}"
        xs = ex.need_vec(g["args"]).e
        if len(xs) != len(want[2]): return f"{len(xs)} arguments instead of {len(want[2])}"
        for x, w in zip(xs, want[2]):
            q = eq(ex, w, x)
            if q: return q
        return None
    l, r = ex.nf(den.expand(ex, want)), ex.nf(den.expand(ex, den.ph(ex, v)))
    if l is r or tm.prove_eq(l, r) is True: return None
    s, w, _ = H.judge(ex, l, r, random.Random(1))
    return None if s == H.PROVED else f"denotes {tm.show(r)[:120]} instead of {tm.show(l)[:120]}"
def res(ex, v):
    v = ex.need_adt(v); ok = ex.prog.types[v.ty]["v"][v.var]["n"] == "Ok"; return ok, v.f[0] if v.f else None
def judge_read(ex, v, how):
    ok, e = res(ex, v); rd = Read(ex, "toks", ex.ghost["p0"])
    try: want = how(rd)
    except Fail: return (H.PROVED, "") if not ok else (H.REFUTED, "malformed input is accepted")
    except Wrong as w: return H.REFUTED, str(w)
    if not ok: return H.REFUTED, "well-formed input is rejected"
    if rd.i != len(rd.calls): return H.REFUTED, "a sub-expression is parsed that does not belong here"
    self_ = ex.ghost.get("self")
    if self_ is not None:
        _, _, pos = parser_of(ex, self_)
        if pos_key(ex, pos) != pos_key(ex, rd.pos): return H.REFUTED, f"stops at {pos_key(ex, pos)} instead of {pos_key(ex, rd.pos)}"
    if how is None: return H.PROVED, ""
    q = eq(ex, want, e)
    return (H.REFUTED, q) if q else (H.PROVED, "")
def start(ex, ly, ctx, classes, limit=3):
    ex.ghost.update(ly=ly, classes=classes, limit=limit); p0 = var("i.p0"); ex.ints.add(p0); ex.nn.add(p0); ex.ghost["p0"] = p0
    c = models.some(ex, Ptr(Cell(Opaque("context")))) if ctx else models.none(ex)
    pv = Adt(ly.PAR, 0, [{"tokens": Ptr(Cell(Opaque("toks"))), "pos": p0, "context": c}[n] for n in ly.pf])
    ex.ghost["self"] = s = Ptr(Cell(pv)); return s
ALL = ["num", "id", "(", ")", ",", "der", "fn"] + INFIX + [None]
def tasks(ly):
    out = []
    for m in (0, 11, 21, 25, 30): out.append(("parse_expr", m))
    for first in ["num", "id", "(", ")", ",", "der"] + INFIX + [None] + [n for n in ly.on if n not in INFIX]:
        for ctx in (False, True) if first in ("id", "der") else (False,): out.append(("parse_prefix", first, ctx))
    out.append(("parse_expression",)); out.append(("precedence-classes",))
    return out
def w_task(a):
    C, p, cs, ly, PT, AT, NT = _ST; sym.EXEC.clear()
    f = p.fn(PR + a[0]) if a[0] in ("parse_expr", "parse_prefix") else p.fn(P + "pratt::parse_expression")
    if f is None: return a, H.UNDECIDED, "not found", [], None
    bound = None
    if a[0] == "parse_expr":
        m = a[1]; bound = "at most 3 operators on one level"
        def run(ex):
            s = start(ex, ly, False, INFIX + ["fn", "other", None], 4); ex.ghost["enter"] = "expr"; return ex.run(f, [s, m])
        how = lambda rd: rd.expr(m)
    elif a[0] == "parse_prefix":
        first, ctx = a[1], a[2]
        isfn = first in ly.ov and first not in INFIX
        if first in ("id", "der") or isfn: bound = f"at most {max(2, AT[first]) if isfn else 3} arguments"
        def run(ex):
            s = start(ex, ly, ctx, ["(", ")", ",", "other", None], max(2, AT[first]) if isfn else 3)
            if isfn: ex.ghost["fnop"] = first
            tok(ex, "toks", ex.ghost["p0"], ["fn" if isfn else first]); ex.ghost["enter"] = "prefix"; return ex.run(f, [s])
        how = lambda rd: rd.prefix()
    elif a[0] == "parse_expression":
        def run(ex):
            ex.ghost.update(ly=ly, classes=ALL, limit=9); ex.ghost["p0"] = 0
            return ex.run(f, [Ptr(Cell(Opaque("toks"))), models.none(ex)])
        def how(rd):
            if rd.at()[0] is None: raise Fail()
            e = rd.call("expr", INFIX)
            if rd.at()[0] is not None: raise Fail()
            return e
    st, why, n = rec.drive(C, p, cs, "", run, lambda ex, v: judge_read(ex, v, how), max_paths=40000, budget=150, opts={"max_dec": 60, "nopanic": lambda pe, s: True})
    return a, st, why, list(sym.EXEC), bound
# ------------------------------------------------------------------ operator tables
def tables(C, p, ly):
    """precedence, arity and name of every operator, from the real bodies"""
    get = lambda n: p.fn(P + "tokens::Operator::" + n)
    PT, AT, NT = {}, {}, {}
    for nm in ly.on:
        o = Ptr(Cell(op_val(ly, nm)))
        try:
            for n, T in (("precedence", PT), ("min_arity", AT), ("to_name", NT)):
                ex, v = concrete(p, get(n), [o]); v = ex.deref_all(v)
                T[nm] = v if isinstance(v, (int, str)) else int(ex.as_index(v))
            ex, isf = concrete(p, get("is_function"), [o])
        except Exception as e:
            C.ob(f"Operator/{nm}", H.UNDECIDED, f"{type(e).__name__} {e}"); PT.setdefault(nm, 0); AT.setdefault(nm, 0); NT.setdefault(nm, nm); continue
        bad = []
        if bool(isf) != (nm not in INFIX): bad.append(f"is_function is {isf}")
        if nm not in INFIX and AT[nm] not in ARITY.get(nm, (1,)): bad.append(f"needs {AT[nm]} arguments, the function has {ARITY.get(nm, (1,))}")
        try:
            ex, v = concrete(p, get("parse_str"), [NT[nm]]); v = ex.need_adt(v)
            if not v.f or ex.need_adt(v.f[0]).var != ly.ov[nm]: bad.append(f"its name {NT[nm]!r} reads as {ly.on[ex.need_adt(v.f[0]).var] if v.f else 'no operator'}")
        except Exception as e: C.ob(f"Operator/{nm}", H.UNDECIDED, f"{type(e).__name__} {e}"); continue
        want = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Pow": "^"}.get(nm) or NAMES.get(nm) or nm.lower()
        if NT[nm] != want: bad.append(f"is called {NT[nm]!r}, should be {want!r}")
        C.ob(f"Operator/{nm}", H.REFUTED if bad else H.PROVED, "; ".join(bad))
    for alias, nm in (("**", "Pow"), ("sen", "Sin"), ("foo", None), ("", None), ("Sin", None), ("x", None)):
        try: ex, v = concrete(p, get("parse_str"), [alias]); v = ex.need_adt(v); got = ly.on[ex.need_adt(v.f[0]).var] if v.f else None
        except Exception as e: C.ob(f"parse_str/{alias!r}", H.UNDECIDED, f"{type(e).__name__} {e}"); continue
        C.ob(f"parse_str/{alias!r}", H.PROVED if got == nm else H.REFUTED, f"reads as {got}")
    order = [(x, y) for x in INFIX for y in INFIX if (PREC[x] < PREC[y]) != (PT[x] < PT[y]) or (PREC[x] == PREC[y]) != (PT[x] == PT[y])]
    C.ob("precedence/order", H.REFUTED if order else H.PROVED, f"{order[:3]} are ordered differently" if order else f"{[(n, PT[n]) for n in INFIX]}")
    C.fns.update(get(n)["def"] for n in ("precedence", "min_arity", "to_name", "is_function", "parse_str"))
    return PT, AT, NT
NAMES = {"ExpPolar": "exp_polar", "ZetaDeriv": "zeta_deriv", "AssocLegendre": "assoc_legendre", "EllipticE": "elliptic_e", "EllipticK": "elliptic_k"}
# ------------------------------------------------------------------ implicit multiplication
CLS = ["num", "id", "(", ")", ",", "der", "fn"] + INFIX
def sim(ex, a, b, custom):
    """an operand ends at a and another one starts at b"""
    if a == "num" and b == "num": return False
    if a == "id" and b == "(": return not custom
    return a in ("num", "id", "der", ")") and b in ("num", "id", "der", "fn", "(")
def w_mul(a):
    C, p, cs, ly, *_ = _ST; sym.EXEC.clear()
    f = p.fn(P + "implicit_mul::should_insert_mul")
    cs = dict(cs)
    for g in p.fns:
        if "HashSet" in g["def"] and g["def"].endswith("::contains"):
            def c_cont(ex, f_, x):
                v = ex.deref_all(x[0])
                if not (isinstance(v, Opaque) and v.what == "customs"): return NotImplemented
                k = ("custom", name_of(ex, x[1]))
                if k not in ex.ghost: ex.ghost[k] = ex.choose(2, "custom") == 0
                return ex.ghost[k]
            cs[g["def"]] = c_cont
    if a[0] == "pair":
        if f is None: return a, H.UNDECIDED, "not found", [], None
        ops = [n for n in ly.on if n not in INFIX]
        def run(ex):
            ex.ghost.update(ly=ly)
            ts = []
            for c in a[1:]:
                if c == "fn": ex.ghost["fnop"] = ops[ex.choose(len(ops), "function")]
                ts.append(make_tok(ex, ly, c, f"#{len(ts)}"))
            ex.ghost["t"] = ts
            return ex.branch(ex.run(f, [Ptr(Cell(ts[0])), Ptr(Cell(ts[1])), Ptr(Cell(Opaque("customs")))]))
        def judge(ex, v):
            k = ("custom", "id#0")
            if a[1:] == ("id", "(") and k not in ex.ghost: return H.REFUTED, "a name in front of a parenthesis is not looked up among the functions"
            w = sim(ex, a[1], a[2], ex.ghost.get(k))
            return (H.PROVED, "") if v == w else (H.REFUTED, f"{'inserts' if v else 'does not insert'} a multiplication between {a[1]} and {a[2]}{' (a custom function)' if ex.ghost.get(k) else ''}")
        st, why, n = rec.drive(C, p, cs, "", run, judge, max_paths=20000, budget=60)
        return a, st, why, list(sym.EXEC), None
    n = a[1]; g = p.fn(P + "implicit_mul::insert_implicit_multiplication")
    if g is None or f is None: return a, H.UNDECIDED, "not found", [], None
    def c_sim(ex, f_, x):
        i, j = tag(ex, x[0]), tag(ex, x[1]); k = ("sim", i, j)
        if k not in ex.ghost: ex.ghost[k] = ex.choose(2, "adjacent operands") == 0
        return ex.ghost[k]
    cs[f["def"]] = c_sim
    def tag(ex, x): return tm.show(ex.num_of(ex.need_adt(ex.deref_all(x)).f[0]))
    def run(ex):
        ex.ghost.update(ly=ly); ts = [make_tok(ex, ly, "num", f"#{i}") for i in range(n)]
        return ex.run(g, [VecV(ts), Ptr(Cell(Opaque("customs")))])
    def judge(ex, v):
        out = ex.need_vec(v).e; want = []
        for i in range(n):
            want.append(f"num#{i}")
            if i + 1 < n:
                k = ("sim", f"num#{i}", f"num#{i + 1}")
                if k not in ex.ghost and not any(x[0] == "sim" and isinstance(x, tuple) for x in ex.ghost if isinstance(x, tuple)): return H.REFUTED, f"tokens {i} and {i + 1} are not examined"
                if k not in ex.ghost: return H.REFUTED, f"tokens {i} and {i + 1} are not examined"
                if ex.ghost[k]: want.append("*")
        got = []
        for x in out:
            x = ex.need_adt(x)
            got.append("*" if x.var == ly.tv["Operator"] and ex.need_adt(x.f[0]).var == ly.ov["Mul"] else tm.show(ex.num_of(x.f[0])) if x.var == ly.tv["Number"] else "?")
        return (H.PROVED, "") if got == want else (H.REFUTED, f"gives {got} instead of {want}")
    st, why, k = rec.drive(C, p, cs, "", run, judge, max_paths=20000, budget=60)
    return a, st, why, list(sym.EXEC), f"{n} tokens"
def contractual(C):
    global _ST
    p = mir.prog(); ly = Lay(p); cs = contracts(p)
    PT, AT, NT = tables(C, p, ly); _ST = C, p, cs, ly, PT, AT, NT
    for a, st, why, fns, b in par.run(w_task, [t for t in tasks(ly) if t[0] != "precedence-classes"], C):
        C.fns.update(fns); nm = a[0] + ("/min %d" % a[1] if a[0] == "parse_expr" else f"/{a[1] or 'end of input'}{'/context' if a[2] else ''}" if a[0] == "parse_prefix" else "")
        C.ob(nm, st, why, bounded=b if st == H.PROVED else None)
    for a, st, why, fns, b in par.run(w_mul, [("pair", x, y) for x in CLS for y in CLS] + [("list", n) for n in range(0, 5)], C):
        C.fns.update(fns); C.ob(f"implicit/{a[1]} {a[2]}" if a[0] == "pair" else f"insert_implicit_multiplication/{a[1]} tokens", st, why, bounded=b if st == H.PROVED else None)
def main():
    C = H.Check("C12")
    C.trusted = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor and std models", "assumed contracts: Expr constructors (C03)"]
    C.assume = ["the lexer (text to tokens) is only compared on bounded inputs", "call stack deep enough for the nesting of the text"]
    contractual(C)
    c12b.bounded(C)
    rec.refuted(C)
    C.finish()
