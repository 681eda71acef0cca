"""C19: printed expressions read back as the same function.
Display::fmt (standard mode) and Polynomial's Display are verified kind by kind: a printed child is a nonterminal whose text is, by the
contract of its own kind, an expression of a known precedence class; the emitted token sequence is read with the grammar of C12
and must denote the node."""
import random
from .. import term as tm, mir, sym, models, den, rec, harness as H, par
from ..term import num, mk, var, fn, ZERO, ONE
from ..sym import Ex, explore, Sym, SymV, StrSym, IdV, Ptr, Cell, ArcV, VecV, Adt, MapV, Opaque, Tup
from . import c19b, c01
DI = "symb_anafis::core::display::"
FMT = DI + "<impl std::fmt::Display for symb_anafis::core::expr::Expr>::fmt"
class Pieces:
    def __init__(self, p): self.p = list(p)
class FArgs:
    def __init__(self, p): self.p = p
class FArg:
    def __init__(self, v): self.v = v
# precedence classes: how a text of this kind may be embedded (0 sum, 1 term, 2 signed, 3 power, 4 atom)
SUM, TERM, UNARY, POWER, ATOM = range(5)
CLASS = {"Sum": SUM, "Poly": SUM, "Product": TERM, "Div": TERM, "Pow": POWER, "FunctionCall": ATOM, "Symbol": ATOM, "Derivative": POWER}
def pieces_of(ex, v):
    """what Display of this value emits"""
    x = ex.deref_all(v)
    if isinstance(x, (ArcV, )): x = ex.deref_all(Ptr(x.c))
    if isinstance(x, Pieces): return x.p
    if isinstance(x, str): return [x]
    if isinstance(x, StrSym): return [("name", x.s)]
    if isinstance(x, SymV): return [("name", x)]
    if isinstance(x, bool): raise sym.Unsupported("display of bool")
    if isinstance(x, int) or isinstance(x, tm.T): return [("num", ex.num_of(x))]
    if den.is_expr(ex, x): return [("sub", x)]
    ly = den.lay(ex.prog)
    if isinstance(x, (Sym, Adt)) and x.ty == ly.PO: return [("poly", x)]
    raise sym.Unsupported(f"display of {x}")
def template(ex, t, args):
    b = [int(ex.as_index(x)) for x in ex.need_vec(t).e]; out = []; i = k = 0
    while i < len(b):
        c = b[i]
        if c == 0: break
        if c < 128: out.append(bytes(b[i + 1:i + 1 + c]).decode()); i += 1 + c
        elif c == 128: n = b[i + 1] + 256 * b[i + 2]; out.append(bytes(b[i + 3:i + 3 + n]).decode()); i += 3 + n
        elif c & 192 == 192 and not c & 7:
            if c & 8: k = b[i + 1] + 256 * b[i + 2]; i += 2
            out += pieces_of(ex, args[k].v); k += 1; i += 1
        else: raise sym.Unsupported(f"format option {c}")
    return out
def c_args(ex, f, a):
    n = f["def"].rsplit("::", 1)[1]
    if n in ("from_str", "from_str_nonconst", "new_const"):
        s = ex.deref_all(a[0]); return FArgs([s] if isinstance(s, str) else pieces_of(ex, s))
    xs = ex.need_vec(ex.deref_all(a[1])).e
    return FArgs(template(ex, ex.deref_all(a[0]), [ex.force(x) for x in xs]))
def out_of(ex): return ex.ghost.setdefault("out", [])
def c_write_fmt(ex, f, a):
    v = ex.deref_all(a[1])
    if not isinstance(v, FArgs): raise sym.Unsupported("write_fmt of unknown arguments")
    t = ex.deref_all(a[0])
    if isinstance(t, Opaque) and t.what == "formatter": out_of(ex).extend(v.p); return models.ok(ex, sym.UNIT)
    raise sym.Unsupported("write_fmt to something else")
def c_write_str(ex, f, a): out_of(ex).extend(pieces_of(ex, a[1])); return models.ok(ex, sym.UNIT)
def contracts(p):
    cs = dict(den.base_contracts(p))
    ly = den.lay(p)
    for f in p.fns:
        d = f["def"]
        if d.endswith("fmt::rt::Argument::<'_>::new_display"): cs[d] = lambda ex, f_, a: FArg(a[0])
        elif "fmt::rt::Argument::<" in d: cs[d] = lambda ex, f_, a: (_ for _ in ()).throw(sym.Unsupported("format argument"))
        elif "std::fmt::Arguments::<" in d and d.rsplit("::", 1)[1] in ("new", "from_str", "new_const", "from_str_nonconst"): cs[d] = c_args
        elif d.endswith("Formatter::<'a>::write_fmt"): cs[d] = c_write_fmt
        elif d.endswith("std::fmt::Formatter<'_> as std::fmt::Write>::write_str") or d.endswith("Formatter::<'a>::write_str"): cs[d] = c_write_str
        elif d in ("std::fmt::format", "alloc::fmt::format") or d.endswith("::fmt::format"): cs[d] = lambda ex, f_, a: Pieces(ex.deref_all(a[0]).p)
        elif d.endswith("ToString>::to_string") or d.endswith("string::ToString::to_string"): cs[d] = lambda ex, f_, a: Pieces(pieces_of(ex, a[0]))
        elif d.endswith("str>::is_empty"): cs[d] = c_empty
    # the text of a child: contract
    cs[FMT] = c_fmt
    def c_num(ex, f_, a):
        if ex.ghost.pop("enternum", None): return NotImplemented
        out_of(ex).append(("num", ex.num_of(a[1]))); return models.ok(ex, sym.UNIT)
    cs[DI + "format_number_expr"] = c_num
    for f in p.fns:
        if f["def"].endswith("poly::format_coeff"): cs[f["def"]] = lambda ex, f_, a: NotImplemented if ex.ghost.pop("enternum", None) else Pieces([("num", ex.num_of(a[0]))])
    for n in ("term_count", "first_coeff"): cs.pop(den.POLYM + n, None)
    cs[den.POLYM + "negate"] = lambda ex, f_, a: negpoly(ex, a[0])
    cs["symb_anafis::core::symbol::interned::InternedSymbol::as_str"] = lambda ex, f_, a: models.S(ex, den.symval(ex, a[0])) if not isinstance(den.symval(ex, a[0]), SymV) else StrSym(den.symval(ex, a[0]))
    for f in p.fns:
        if f["def"] == "<symb_anafis::core::symbol::interned::InternedSymbol as std::convert::AsRef<str>>::as_ref": cs[f["def"]] = cs["symb_anafis::core::symbol::interned::InternedSymbol::as_str"]
    return cs
def c_empty(ex, f, a):
    s = ex.deref_all(a[0])
    return False if isinstance(s, StrSym) else NotImplemented
def c_fmt(ex, f, a):
    if ex.ghost.pop("enter", None): return NotImplemented
    out_of(ex).extend(pieces_of(ex, a[0])); return models.ok(ex, sym.UNIT)
def negpoly(ex, v):
    """the same powers with negated coefficients"""
    ly = den.lay(ex.prog); po = ex.need_adt(den.strip(ex, v)); i = ly.pf.index("terms") if isinstance(ly.pf, list) else ly.pf["terms"]
    fs = list(po.f); fs[i] = VecV([Tup([ex.force(t).f[0], tm.neg(ex.num_of(ex.force(t).f[1]))]) for t in ex.need_vec(fs[i]).e])
    return Adt(po.ty, po.var, fs)
# ------------------------------------------------------------------ reading
class Unread(Exception): pass
def tokens(ex, out):
    ts = []; buf = ""
    def flush():
        nonlocal buf
        import re
        for m in re.finditer(r"\s+|[-+*/^(),]|[A-Za-z_][A-Za-z_0-9]*|[0-9.]+|.", buf):
            w = m.group()
            if w.strip(): ts.append(("op", w) if w in "-+*/^()," else ("name", w) if w[0].isalpha() or w[0] == "_" else ("num", num(float(w))) if w[0].isdigit() else ("raw", w))
        buf = ""
    for x in out:
        if isinstance(x, str): buf += x
        else: flush(); ts.append(x)
    flush(); return ts
def poly_den(ex, x):
    ly = den.lay(ex.prog); po = ex.need_adt(den.strip(ex, x)); b = den.ph(ex, po.f[ly.pf["base"]]); t = ZERO
    for y in ex.need_vec(po.f[ly.pf["terms"]]).e: y = ex.force(y); t = tm.add(t, tm.mul(ex.num_of(y.f[1]), mk("pow", b, ex.num_of(y.f[0]))))
    return t
class Rd:
    def __init__(self, ex, ts): self.ex = ex; self.t = ts; self.i = 0
    def cur(self): return self.t[self.i] if self.i < len(self.t) else ("end", "")
    def next(self): self.i += 1; return self.t[self.i - 1]
    def op(self, c): return self.cur() == ("op", c)
    def piece(self, lo):
        """a printed child at a place that takes texts of class >= lo"""
        k, v = self.next(); ex = self.ex
        if k == "num":
            neg = ex.decide(ex.cmp("lt", v, ZERO))
            if lo >= POWER and neg is not False: raise Unread("a number that may be negative needs parentheses")
            return v
        if k == "poly":
            n = len(ex.need_vec(ex.need_adt(den.strip(ex, v)).f[den.lay(ex.prog).pf["terms"]]).e)
            if lo > (SUM if n > 1 else TERM): raise Unread("a polynomial needs parentheses")
            return den.ph(ex, v)
        kn = rec.kindname(ex, v)
        if kn is None: cls = SUM
        elif kn == "Number":
            t = ex.nf(ex.num_of(den.kind_of(ex, den.strip(ex, v)).f[0])); neg = ex.decide(ex.cmp("lt", t, ZERO)); cls = ATOM if neg is False else UNARY
        elif kn == "Poly": 
            po = ex.need_adt(den.strip(ex, den.kind_of(ex, den.strip(ex, v)).f[0])); l = ex.vec_len(po.f[den.lay(ex.prog).pf["terms"]]); cls = TERM if l in (0, 1) else SUM
        else: cls = CLASS[kn]
        # kinds excluded so far
        if kn is None:
            ly = den.lay(ex.prog); k = ex.need_adt(den.strip(ex, v)).f[ly.ef["kind"]]
            ex_ = ex.excl.get(getattr(ex.force(k), "id", None), set()); left = [n for n, i in ly.kv.items() if i not in ex_]
            cls = min((UNARY if n == "Number" else CLASS[n]) for n in left) if left else SUM
        if cls < lo: raise Unread(f"a {kn or 'child of any kind'} needs parentheses here")
        return den.ph(ex, v)
    def sum(self):
        if self.cur()[0] in ("sub", "poly") and self.peek_op(("+", "-", ")", ",", None)): e = self.piece(SUM)
        else: e = self.term()
        while self.op("+") or self.op("-"):
            s = self.next()[1]
            if s == "+" and self.cur()[0] in ("sub", "poly") and self.peek_op(("+", "-", ")", ",", None)): e = tm.add(e, self.piece(SUM))
            else: t = self.term(); e = tm.add(e, t) if s == "+" else tm.sub(e, t)
        return e
    def peek_op(self, ops):
        n = self.t[self.i + 1] if self.i + 1 < len(self.t) else None
        return (n is None and None in ops) or (n is not None and n[0] == "op" and n[1] in ops)
    def term(self):
        if self.cur()[0] in ("sub", "poly", "num") and not self.peek_op(("^",)): e = self.piece(TERM)
        else: e = self.unary()
        while self.op("*") or self.op("/"):
            s = self.next()[1]
            if s == "*":
                t = self.piece(TERM) if self.cur()[0] in ("sub", "poly", "num") and not self.peek_op(("^",)) else self.unary()
                e = tm.mul(e, t)
            else: e = tm.div(e, self.unary())
        return e
    def unary(self):
        if self.op("-"):
            self.next()
            # -(a*b) read as (-a)*b is the same number
            if self.cur()[0] in ("sub", "poly", "num") and not self.peek_op(("^",)): return tm.neg(self.piece(TERM))
            return tm.neg(self.unary())
        if self.op("+"): self.next(); return self.unary()
        if self.cur()[0] in ("sub", "poly", "num") and not self.peek_op(("^",)): return self.piece(UNARY)
        return self.power()
    def power(self):
        b = self.atom()
        if self.op("^"): self.next(); return den.powd(b, self.unary())
        return b
    def atom(self):
        c = self.cur(); ex = self.ex
        if c[0] == "sub" and rec.kindname(ex, c[1]) == "Derivative" : raise Unread("a derivative as the base of a power needs parentheses")
        if c[0] in ("sub", "poly", "num"): return self.piece(ATOM)
        if c == ("op", "("):
            self.next(); e = self.sum()
            if self.next_or_end() != ("op", ")"): raise Unread("unbalanced parenthesis")
            return e
        if c[0] == "name":
            self.next(); s = c[1]; s = ex.known_symbol(s) if isinstance(s, str) else s
            if self.op("("):
                self.next(); a = []
                if self.op(")"): self.next()
                else:
                    while True:
                        a.append(self.sum()); d = self.next_or_end()
                        if d == ("op", ")"): break
                        if d != ("op", ","): raise Unread("argument list")
                return den.fn_term(ex, s, a)
            return den.sym_term(ex, s)
        raise Unread(f"unexpected {c}")
    def next_or_end(self):
        if self.i >= len(self.t): return ("end", "")
        return self.next()
    def all(self):
        e = self.sum()
        if self.cur()[0] != "end": raise Unread(f"{self.cur()} follows without an operator")
        return e
def show(ex, out):
    s = ""
    for x in out:
        if isinstance(x, str): s += x
        elif x[0] == "num": s += "[" + tm.show(x[1])[:20] + "]"
        elif x[0] == "name": s += "[name]"
        else: s += "[" + (rec.kindname(ex, x[1]) or "expr" if x[0] == "sub" else "poly") + "]"
    return s
def judge(ex, spec, out):
    try: t = Rd(ex, tokens(ex, out)).all()
    except Unread as e: return H.REFUTED, f"prints {show(ex, out)!r}: {e}"
    l, r = rec.zpow(ex, den.expand(ex, spec)), rec.zpow(ex, den.expand(ex, t))
    if l is r or tm.prove_eq(l, r) is True: return H.PROVED, ""
    s, w, _ = H.judge(ex, l, r, random.Random(2))
    return (H.PROVED, "") if s == H.PROVED else (s, f"prints {show(ex, out)!r}, read as {tm.show(r)[:120]} instead of {tm.show(l)[:120]} ({w})")
EPSN = num(1e-14)
_ST = None
CASES = [("Number", 0, None), ("Symbol", 0, None), ("Div", 0, None), ("Pow", 0, None), ("Derivative", 0, None)] + [("FunctionCall", k, None) for k in (0, 1, 2, 3, 4)] + [(s, k, None) for s in ("Sum", "Product") for k in (1, 2, 3)] + [("Poly", 0, k) for k in (0, 1, 2, 3)]
def w_kind(a):
    C, p, cs, ly = _ST; kind, ar, pt = a; sym.EXEC.clear()
    f = p.fn(FMT)
    pf = next((g for g in p.fns if g["def"] in ("<symb_anafis::core::poly::Polynomial as std::fmt::Display>::fmt",) and "body" in g), None)
    if f is None: return a, H.UNDECIDED, "Display not found", []
    def run(ex):
        IN, ka = rec.setup(ex, ly, kind, ar, poly=pt); ex.ghost["ka"] = ka; ex.ghost["enter"] = True
        fm = Ptr(Cell(Opaque("formatter")))
        if kind == "Poly":
            if pf is None: raise sym.Unsupported("Polynomial Display not found")
            ex.ghost["po"] = ka.f[0]; ex.ghost["enter"] = False
            return ex.run(pf, [Ptr(Cell(ex.need_adt(den.strip(ex, ka.f[0])))), fm])
        return ex.run(f, [Ptr(Cell(IN)), fm])
    def jd(ex, v):
        ka = ex.ghost["ka"]; out = ex.ghost.get("out", [])
        if ex.prog.types[ex.need_adt(v).ty]["v"][ex.need_adt(v).var]["n"] != "Ok": return H.REFUTED, "fails"
        if kind == "Number":
            t = ex.num_of(ka.f[0])
            # special values have no text of their own (outside the statement)
            if any(isinstance(x, str) for x in out) and any(w in "".join(x for x in out if isinstance(x, str)) for w in ("NaN", "Inf")): return H.PROVED, ""
        if kind == "Derivative":
            g = dict(zip(ly.kf[kind], ka.f)); sh = [x if isinstance(x, str) else x[0] for x in out]
            if sh != ["∂^", "num", "_", "sub", "/∂_", "name", "^", "num"]: return H.REFUTED, f"prints {show(ex, out)!r}"
            o = ex.nf(ex.num_of(g["order"]))
            if tm.prove_eq(ex.nf(out[1][1]), o) is not True or tm.prove_eq(ex.nf(out[7][1]), o) is not True: return H.REFUTED, "another order is printed"
            if rec.key(ex, out[3][1]) != rec.key(ex, g["inner"]): return H.REFUTED, "another function is printed"
            return (H.PROVED, "") if ex.sym_eq(ex.force(g["var"]), out[5][1] if not isinstance(out[5][1], str) else ex.known_symbol(out[5][1])) else (H.REFUTED, "another variable is printed")
        spec = den.kind_den(ex, ka) if kind != "Poly" else poly_den(ex, ex.ghost["po"])
        # a coefficient within 1e-14 of one is one (documented tolerance)
        return judge(ex, spec, out)
    st, why, n = rec.drive(C, p, cs, "", run, jd, max_paths=400000 if C and C.thorough else 20000, budget=500 if C and C.thorough else 100, opts={"max_dec": 80})
    return a, st, why, list(sym.EXEC)
def w_number(nm):
    """format_number_expr and format_coeff print the number"""
    C, p, cs, ly = _ST; sym.EXEC.clear()
    f = next((g for g in p.fns if g["def"].endswith("::" + nm) and "body" in g), None)
    if f is None: return nm, H.UNDECIDED, "not found", []
    def run(ex):
        ex.ghost["enternum"] = True; n = var("n0")
        if nm == "format_coeff": return ex.run(f, [n])
        md = p.adt(DI + "FormatMode"); st = next(i for i, v in enumerate(p.types[md]["v"]) if v["n"] == "Standard")
        return ex.run(f, [Ptr(Cell(Opaque("formatter"))), n, Adt(md, st, [])])
    def jd(ex, v):
        out = v.p if isinstance(v, Pieces) else ex.ghost.get("out", [])
        if len(out) == 1 and not isinstance(out[0], str) and out[0][0] == "num":
            l, r = ex.nf(var("n0")), ex.nf(out[0][1])
            if l is r or tm.prove_eq(l, r) is True: return H.PROVED, ""
            s, w, _ = H.judge(ex, l, r, random.Random(1))
            return (H.PROVED, "") if s == H.PROVED else (s, f"prints {tm.show(r)} instead of {tm.show(l)}")
        s = "".join(x for x in out if isinstance(x, str))
        if "NaN" in s or "Inf" in s: return H.PROVED, ""
        return H.REFUTED, f"prints {out}"
    st, why, n = rec.drive(C, p, cs, "", run, jd)
    return nm, st, why, list(sym.EXEC)
BND = lambda c: f"nodes with exactly {c[1]} operands" if c[0] in ("FunctionCall", "Sum", "Product") else (f"polynomials of {c[2]} terms" if c[0] == "Poly" else None)
def label(c): return c[0] + (f"/{c[1]}" if c[0] in ("FunctionCall", "Sum", "Product") else "") + (f"/{c[2]} terms" if c[0] == "Poly" else "")
def contractual(C):
    global _ST
    p = mir.prog(); cs = contracts(p); ly = den.lay(p); _ST = C, p, cs, ly
    for nm in ("format_number_expr", "format_coeff"):
        _, st, why, fns = w_number(nm); C.fns.update(fns); C.ob(nm, st, why)
    for a, st, why, fns in par.run(w_kind, [c for c in CASES if C.thorough or c[:2] != ("Sum", 3)], C):
        C.fns.update(fns); C.ob(f"fmt/{label(a)}", st, why, bounded=BND(a) if st == H.PROVED else None)
def main():
    C = H.Check("C19")
    C.trusted = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor, std models and format-template decoder", "the parser reads the grammar of C12", "Rust's f64 Display round-trips"]
    C.assume = ["f64 arithmetic treated as real arithmetic; a coefficient within EPSILON = 1e-14 of 1 counts as 1", "named symbols; derivatives of function calls; finite numbers"]
    contractual(C)
    c19b.bounded(C)
    rec.refuted(C)
    C.finish()
