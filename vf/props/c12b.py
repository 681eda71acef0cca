"""C12, bounded part: random token sequences rendered as text, the real parser against an independent
recursive-descent reading of the documented grammar; random strings for totality."""
import random
from mpmath import mpf
from .. import replay as R, oracle as O, simpdiff, bnd as BND_
IDS = ["x", "y", "z", "qw", "pi", "e", "alpha", "x_1", "θ"]
FN = {"sin": 1, "cos": 1, "exp": 1, "sqrt": 1, "abs": 1, "atan2": 2, "ln": 1, "cbrt": 1, "hermite": 2, "sinh": 1}
NUM = ["2", "3", "0.5", ".25", "4.", "1e2", "2.5e-1", "1_0", "1E1", "7", "10", "0", "1.5e+1"]
CUS = ["f", "myf"]
DER = [("∂_f(x)/∂_x", ("d", ("f", "f", [("s", "x")]), "x", 1)), ("∂^2_f(x, y)/∂_y^2", ("d", ("f", "f", [("s", "x"), ("s", "y")]), "y", 2)), ("∂^1_f(x+1)/∂_x^1", ("d", ("f", "f", [("+", [("s", "x"), ("n", 1.0)])]), "x", 1)), ("∂_f/∂_x", ("d", ("f", "f", [("s", "x")]), "x", 1))]
class Bad(Exception): pass
def ends(t): return t[0] in ("num", "id", "cus", "der") or t[1] == ")"
def starts(t): return t[0] in ("num", "id", "cus", "fn", "der") or t[1] == "("
def implicit(a, b):
    if a[0] == "num" and b[0] == "num": return False
    if a[0] == "cus" and b[1] == "(": return False
    if a[0] == "num" and b[0] == "der" or a[0] == "der": return starts(b)
    return ends(a) and starts(b)
def balance(ts):
    o = sum(t[1] == "(" for t in ts); c = sum(t[1] == ")" for t in ts); L, P = ("p", "("), ("p", ")")
    if o > c: return ts + [P] * (o - c)
    if c > o: return [L] * (c - o) + ts
    d = 0
    for t in ts:
        d += (t[1] == "(") - (t[1] == ")")
        if d < 0: return [L] + ts + [P]
    return ts
class Ref:
    """sum := term (+|- term)*; term := unary (*|/|adjacency unary)*; unary := (-|+) unary | power; power := atom [^ unary]"""
    def __init__(self, ts): self.t = ts; self.i = 0
    def cur(self): return self.t[self.i] if self.i < len(self.t) else ("end", "")
    def next(self): self.i += 1; return self.t[self.i - 1]
    def all(self):
        e = self.sum()
        if self.cur()[0] != "end": raise Bad("leftover")
        return e
    def sum(self):
        e = self.term(); parts = [e]
        while self.cur()[1] in ("+", "-") and self.cur()[0] == "op":
            s = self.next()[1]; t = self.term(); parts.append(t if s == "+" else ("*", [("n", -1.0), t]))
        return parts[0] if len(parts) == 1 else ("+", parts)
    def term(self):
        e = self.unary()
        while True:
            c = self.cur()
            if c[0] == "op" and c[1] == "*": self.next(); e = ("*", [e, self.unary()])
            elif c[0] == "op" and c[1] == "/": self.next(); e = ("/", e, self.unary())
            elif self.i and implicit(self.t[self.i - 1], c): e = ("*", [e, self.unary()])
            else: return e
    def unary(self):
        c = self.cur()
        if c == ("op", "-"): self.next(); return ("*", [("n", -1.0), self.unary()])
        if c == ("op", "+"): self.next(); return self.unary()
        return self.power()
    def power(self):
        a = self.atom()
        if self.cur()[0] == "op" and self.cur()[1] in ("^", "**"): self.next(); return ("^", a, self.unary())
        return a
    def args(self):
        self.next(); out = []
        if self.cur()[1] == ")": self.next(); return out
        while True:
            out.append(self.sum()); c = self.next() if self.i < len(self.t) else ("end", "")
            if c[1] == ")": return out
            if c[1] != ",": raise Bad("args")
    def atom(self):
        c = self.cur()
        if c[0] == "num": self.next(); return ("n", float(c[1].replace("_", "")))
        if c[0] == "der": self.next(); return c[2]
        if c[0] == "id" or c[0] == "cus":
            self.next()
            if c[0] == "cus" and self.cur()[1] == "(": return ("f", c[1], self.args())
            return ("s", c[1])
        if c[0] == "fn":
            self.next()
            if self.cur()[1] != "(": raise Bad("call")
            a = self.args()
            if len(a) < FN[c[1]]: raise Bad("arity")
            return ("f", c[1], a)
        if c[1] == "(":
            self.next(); e = self.sum()
            if self.cur()[1] != ")": raise Bad("paren")
            self.next(); return e
        raise Bad(c)
def render(r, ts):
    out = ""
    for i, t in enumerate(ts):
        if i:
            p = ts[i - 1]; need = False
            if p[0] in ("id", "cus") and t[0] in ("id", "cus", "num"): need = True
            if p[0] in ("id",) and t[0] == "fn" and not (p[1] in ("x", "y", "z") and t[1] in ("sin", "sqrt", "ln")): need = True      # glued: "xsin(" is x*sin(
            if p[0] == "cus" and t[0] == "fn": need = True
            if p[0] == "num" and (t[0] == "num" or p[1].endswith("_")): need = True
            if p[0] == "num" and t[1][0] in "eE" and t[1] != "exp": need = True                                              # 2 e+3 is not 2e+3
            if p[1] == "*" and t[1] in ("*", "**") or p[1] == "**" and t[1] == "*": need = True
            if p[0] == "der" and (t[0] in ("num", "id", "cus", "fn") or t[1] in ("^", "**")): need = True
            if p[0] in ("num", "id", "cus") and t[0] == "der": need = r.random() < 0.5
            if need or r.random() < 0.3: out += r.choice([" ", "  ", "\t"])
        out += t[1]
    return (" " if r.random() < 0.1 else "") + out + (" " if r.random() < 0.1 else "")
def formula(r, d):
    """tokens of a well-formed formula"""
    def P(x): return [("p", "(")] + x + [("p", ")")]
    if d <= 0 or r.random() < 0.15:
        q = r.random()
        if q < 0.4: return [("num", r.choice(NUM))]
        if q < 0.9: return [("id", r.choice(IDS))]
        if q < 0.95: return [("cus", "f")] + P([("id", "x")])
        a, b = r.choice(DER); return [("der", a, b)]
    q = r.random(); s = lambda: formula(r, d - 1)
    if q < 0.2: return s() + [("op", r.choice("+-"))] + s()
    if q < 0.35: return s() + [("op", r.choice("*/"))] + s()
    if q < 0.5: return s() + [("op", r.choice(["^", "^", "**"]))] + s()
    if q < 0.58: return [("op", r.choice("-+"))] + s()
    if q < 0.7: return P(s())
    if q < 0.82:
        f = r.choice(list(FN)); a = s()
        for _ in range(FN[f] - 1): a = a + [("p", ",")] + s()
        return [("fn", f)] + P(a)
    if q < 0.88: return [("cus", r.choice(CUS))] + P(s() + ([("p", ",")] + s() if r.random() < 0.5 else []))
    return s() + s()
def mutate(r, ts):
    ts = list(ts); k = r.randrange(3); i = r.randrange(len(ts))
    junk = lambda: r.choice([("op", r.choice(["+", "-", "*", "/", "^"])), ("p", "("), ("p", ")"), ("p", ","), ("num", r.choice(NUM)), ("id", r.choice(IDS)), ("cus", "f"), ("fn", "sin")])
    if k == 0: del ts[i]
    elif k == 1: ts.insert(i, junk())
    else: ts[i] = junk()
    return ts or [junk()]
def fix(ts):
    """a function name not followed by ( is an identifier"""
    return [("id", t[1]) if t[0] == "fn" and not (i + 1 < len(ts) and ts[i + 1][1] == "(") else t for i, t in enumerate(ts)]
def expected(ts):
    if not ts: return None
    try: return Ref(balance(ts)).all()
    except (Bad, RecursionError): return None
def check(text, ts, r, st):
    want = expected(ts)
    s = R.call(f"parse {R.esc(text)} 3 qw alpha x_1 2 f myf", 10)
    if s.startswith("ERR"):
        st["rejected"] += 1
        if want is None: return None
        return ("rejects", f"{text!r} is rejected ({R.unesc(s)[:120]}), it reads {R.show(want)}")
    got = R.dec(s)
    if want is None: return ("accepts", f"{text!r} is malformed but read as {R.show(got)}")
    st["accepted"] += 1
    if got == want: return None
    if any(u[0] == "^" and u[2][0] == "^" for u in O.nodes(want)) and O.size(want) > 40: return None
    a, b = O.names(want), O.names(got)
    if b - a: return ("invents", f"{text!r} is read as {R.show(got)}: {sorted(b - a)} does not occur")
    for _ in range(3):
        e = O.env(r, sorted(a | {"x", "y"}), r.random() < 0.7)
        try: x, y = O.ev(O.term(want), e), O.ev(O.term(got), e)
        except (O.Bad, OverflowError): return None
        if x is None or y is None: continue
        st["points"] += 1
        if not O.same(x, y) and not simpdiff.illcond(want, e, abs(x.v - y.v)) and not simpdiff.tiny_const(want): return ("value", f"{text!r} is read as {R.show(got)}, it reads {R.show(want)}; at { {k: float(v) for k, v in e.items()} } the values are {float(y.v)} and {float(x.v)}")
def case_tokens(r, st):
    ts = formula(r, r.choice([1, 2, 3, 3, 4]))
    if len(ts) > 30: return None
    if r.random() < 0.45: ts = mutate(r, ts)
    if r.random() < 0.1: ts = mutate(r, ts)
    ts = fix(ts)
    def f(u):
        u = fix(u)
        if not u: return None
        q = random.Random(5); text = render(q, u)
        try: return check(text, u, q, st)
        except R.RPanic as e: return ("panic", f"parsing {text!r} panics: {e}")
    text = render(r, ts)
    try: w = check(text, ts, r, st)
    except R.RPanic as e: w = ("panic", f"parsing {text!r} panics: {e}")
    if not w: return None
    changed = True
    while changed:                       # shorten
        changed = False
        for i in range(len(ts)):
            u = ts[:i] + ts[i + 1:]; q = f(u) if u else None
            if q and q[0] == w[0]: ts, w, changed = fix(u), q, True; break
    return f"{w[0]}:{render(random.Random(5), ts)[:80]}", w[1], {"kind": "parse", "tokens": ts, "what": w[0]}
SOUP = list("0123456789.eE_+-*/^(),xyfπθ∂ \t\n²·!@#$%&|~éß中") + ["sin", "∂_", "/∂_", "exp", "..", "1e", "**", "^^", "()", ")(", "\u00a0", "−"]
def case_soup(r, st):
    text = "".join(r.choice(SOUP) for _ in range(r.choice([1, 2, 3, 5, 8, 13, 20])))
    def f(x):
        try: s = R.call(f"parse {R.esc(x)} 1 ab 1 f", 10)
        except R.RPanic as e: return ("panic", f"parsing {x!r} panics: {e}")
        if s.startswith("ERR"): st["rejected"] += 1; return None
        got = R.dec(s)
        # every name and every number read occurs in the text
        for u in O.nodes(got):
            if u[0] == "s" and u[1] not in x.replace("π", "pi") and u[1] not in x: return ("invents", f"{x!r} is read as {R.show(got)}: {u[1]!r} does not occur in it")
            if u[0] == "f" and u[1] not in x.replace("sen", "sin").replace("spherical_harmonic", "ynm"): return ("invents", f"{x!r} is read as {R.show(got)}: {u[1]!r} does not occur in it")
        import re
        digits = set(re.findall(r"\d+", "".join(ch if ch in "0123456789" else " " for ch in x)))
        if not any(ch.isdigit() for ch in x) and any(u[0] == "n" and u[1] not in (-1.0, 0.0, 1.0, 2.0) for u in O.nodes(got)): return None
    w = f(text)
    if not w: return None
    i = 0
    while i < len(text):
        q = f(text[:i] + text[i + 1:])
        if q and q[0] == w[0]: text, w = text[:i] + text[i + 1:], q
        else: i += 1
    return f"soup:{w[0]}:{text[:60]}", w[1], {"kind": "parse", "text": text, "what": w[0]}
def bounded(C):
    BND_.run(C, "token_sequences", case_tokens, 24000, 300000, "random formulas of at most 30 tokens and single or double token mutations of them, random spacing; acceptance and value at up to 3 points against an independent reading of the grammar", per=100)
    BND_.run(C, "random_text", case_soup, 16000, 200000, "random strings of at most 20 pieces over operators, digits, letters, Unicode and derivative marks: no panic, no invented name", per=100, seed=5)
