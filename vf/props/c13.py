"""C13: symbol names and identities stay in one-to-one correspondence.
Histories of the global table, several contexts and two threads against a map-based model."""
import random
from .. import harness as H, replay as R, bnd as BND_, rec
G = ["sa", "sb", "sc"]
class Model:
    def __init__(self):
        self.g = {}; self.ids = {}; self.seen = set(); self.ctx = [{"s": {}, "f": {}}, {"s": {}, "f": {}}]; self.keys = {}; self.named = set()
    def fresh(self, got, what, name):
        """got must be an identity never seen before"""
        if not got.startswith("id"): return f"{what} answers {got}"
        i = got.split(":")[0]
        if i in self.seen: return f"{what} hands out {i}, already used by another symbol"
        self.seen.add(i); self.ids[i] = name; return None
    def step(self, op, got):
        """None or a message"""
        o = op[0]
        exp = lambda e: None if got == e else f"{' '.join(map(str, op))} answers {got}, should be {e}"
        tx = o[1:] if o.startswith("t") and o[1:] in ("symb", "get", "remove", "clear", "name") else o
        if tx == "new":
            n, k = op[1:]
            if n in self.g: return None if got.startswith("E:") else f"new symbol {n} accepted although the name exists"
            w = self.fresh(got, f"new {n}", n)
            if not w: self.g[n] = got; self.keys[k] = got
            return w
        if tx == "symb":
            n, k = op[1:]
            if n in self.g: self.keys[k] = self.g[n]; return exp(self.g[n])
            w = self.fresh(got, f"symb {n}", n)
            if not w: self.g[n] = got; self.keys[k] = got
            return w
        if tx == "get": return exp(self.g.get(op[1], "E"))
        if tx == "exists" or tx == "has": return exp(str(op[1] in self.g).lower())
        if tx == "remove":
            i = self.g.pop(op[1], None)
            if i: self.ids.pop(i, None)
            return exp(str(i is not None).lower())
        if tx == "clear":
            self.g.clear(); self.ids.clear()
            for c in self.ctx: c["s"] = {n: ("unseen", n, "cleared") if isinstance(i, tuple) else i for n, i in c["s"].items()}
            return exp("ok")
        if tx == "anon":
            w = self.fresh(got, "anonymous symbol", None)
            if not w: self.keys[op[1]] = got.split(":")[0]
            return w or (None if got.endswith(":false") else "an anonymous symbol has a name")
        if tx in ("name", "idname"):
            k = self.keys.get(op[1])
            if k is None: return exp("?")
            return exp(self.ids.get(k) or "-")
        if tx == "eqs":
            a, b = self.keys.get(op[1]), self.keys.get(op[2])
            return exp("?" if a is None or b is None else str(a == b).lower())
        if tx == "builtin": return None if got == "cos(bx_probe)" else f"after this history the derivative of sin is {got}"
        c = self.ctx[op[1]] if len(op) > 1 and isinstance(op[1], int) else None
        if o == "cs" or o == "cwith":
            n = op[2]
            if o == "cwith":
                # identity not shown: the next cs of this name shows it
                if n not in c["s"]: c["s"][n] = self.g.get(n, ("unseen", n))
                return exp("ok")
            k = op[3]; old = c["s"].get(n)
            if isinstance(old, tuple): lost = len(old) == 3; old = None; unseen = True
            else: unseen = lost = False
            if old is not None: self.keys[k] = old; return exp(old)
            if not unseen and n in self.g: c["s"][n] = self.keys[k] = self.g[n]; return exp(self.g[n])
            w = self.fresh(got, f"context {op[1]} symbol {n}", n)
            if not w:
                c["s"][n] = self.keys[k] = got
                if lost: self.ids.pop(got, None)
            return w
        if o == "chas": return exp(str(op[2] in c["s"]).lower())
        if o == "cget":
            old = c["s"].get(op[2])
            if isinstance(old, tuple): return None if got.startswith("id") and got not in self.seen else f"cget {op[2]} answers {got}"
            return exp(old or "-")
        if o == "crm": return exp(str(c["s"].pop(op[2], None) is not None).lower())
        if o == "ccl": c["s"].clear(); return exp("ok")
        if o == "ccla": c["s"].clear(); c["f"].clear(); return exp("ok")
        if o == "ccount": return exp(str(len(c["s"])))
        if o == "cempty": return exp(str(not c["s"] and not c["f"]).lower())
        if o == "cnames": return exp(",".join(sorted(c["s"])))
        if o == "cfn" or o == "cfnn": c["f"][op[2]] = 1; return exp("ok")
        if o == "chf": return exp(str(op[2] in c["f"]).lower())
        if o == "cfid": b = str(op[2] in c["f"]).lower(); return exp(f"{b} {b}")
        if o == "crf": return exp(str(c["f"].pop(op[2], None) is not None).lower())
        if o == "cclf": c["f"].clear(); return exp("ok")
        if o == "cfns": return exp(",".join(sorted(c["f"])))
        raise AssertionError(o)
WIDTH = {"cfid": 2}
def script(r):
    n = r.choice([4, 8, 12, 20, 30]); ops = []; k = 0; live = []
    names = r.sample(["sa", "sb", "sc", "s\u00e9", "s_1", "aa", "Z"], r.choice([2, 3, 4])); fns = ["fza", "fzb"]
    threads = r.random() < 0.5
    for _ in range(n):
        x = r.random(); nm = r.choice(names); t = "t" if threads and r.random() < 0.4 else ""
        key = f"k{k}"
        if x < 0.10: ops.append(("new", nm, key)); live.append(key)
        elif x < 0.26: ops.append((t + "symb", nm, key)); live.append(key)
        elif x < 0.32: ops.append((t + "get", nm))
        elif x < 0.36: ops.append((r.choice(["exists", "has"]), nm))
        elif x < 0.46: ops.append((t + "remove", nm))
        elif x < 0.49: ops.append((t + "clear",))
        elif x < 0.52: ops.append(("anon", key)); live.append(key)
        elif x < 0.62 and live: ops.append((r.choice([t + "name", "name"]), r.choice(live)))
        elif x < 0.66 and len(live) > 1: ops.append(("eqs", r.choice(live), r.choice(live)))
        elif x < 0.76: ops.append(("cs", r.randrange(2), nm, key)); live.append(key)
        elif x < 0.78: ops.append(("cwith", r.randrange(2), nm))
        elif x < 0.82: ops.append((r.choice(["chas", "cget"]), r.randrange(2), nm))
        elif x < 0.86: ops.append(("crm", r.randrange(2), nm))
        elif x < 0.88: ops.append((r.choice(["ccl", "ccla", "cclf"]), r.randrange(2)))
        elif x < 0.92: ops.append((r.choice(["ccount", "cempty", "cnames", "cfns"]), r.randrange(2)))
        elif x < 0.95: ops.append((r.choice(["cfn", "cfnn"]), r.randrange(2), r.choice(fns)) )
        elif x < 0.99: ops.append((r.choice(["chf", "crf", "cfid"]), r.randrange(2), r.choice(fns)))
        else: ops.append(("builtin",))
        k += 1
    return ops
def text(ops):
    out = []
    for o in ops:
        w = [x if isinstance(x, str) and i == 0 else str(x) if isinstance(x, int) else R.esc(x) for i, x in enumerate(o)]
        if o[0] == "cfn": w.append("1")
        out.append(" ".join(w))
    return "symscript clear " + " ".join(out)
def check(ops, st):
    """replay one history: None or a message"""
    try: s = R.call(text(ops), 20)
    except R.RPanic as e: return f"the history panics: {e}"
    toks = s.split(" "); i = 1; m = Model()
    for o in ops:
        w = WIDTH.get(o[0], 1); got = " ".join(toks[i:i + w]); i += w
        st["steps"] += 1
        # functions intern their name in the global table; a cleared table forgets it
        if o[0] in ("clear", "tclear"):
            for c in m.ctx: c["dead"] = set(c["f"]) | c.get("dead", set())
        if o[0] in ("chf", "cfid", "crf") and o[2] in m.ctx[o[1]].get("dead", ()): 
            if o[0] == "crf": m.ctx[o[1]]["f"].pop(o[2], None); m.ctx[o[1]]["dead"].discard(o[2])
            continue
        if o[0] in ("cfn", "cfnn"): m.ctx[o[1]].get("dead", set()).discard(o[2])
        if o[0] in ("cfns", "cempty") and m.ctx[o[1]].get("dead"): continue
        q = m.step(o, R.unesc(got) if o[0] in ("name", "idname", "tname", "builtin") else R.unesc(got) if o[0] in ("cnames", "cfns") else got)
        if q: return f"step {o}: {q}"
    return None
def case(r, st):
    ops = script(r); w = check(ops, st)
    if not w: return None
    # shorten
    i = 0
    while i < len(ops):
        c = ops[:i] + ops[i + 1:]
        try: q = check(c, st)
        except Exception: q = None
        if q: ops, w = c, q
        else: i += 1
    return "history:" + ";".join(" ".join(map(str, o)) for o in ops)[:200], f"history {[' '.join(map(str, o)) for o in ops]}: {w}", {"kind": "symscript", "history": text(ops)}
def bounded(C):
    BND_.run(C, "histories", case, 40000, 400000, "random histories of up to 30 operations over up to 4 names, 2 contexts and 2 threads taking turns", per=100)
# ------------------------------------------------------------------ contracts: the global table and a context
from .. import mir, sym, models, den, par, term as tm
from ..sym import Ptr, Cell, VecV, Adt, ArcV, Opaque, Tup, MapV, StrSym, UNIT, Named, Clo
REG = "symb_anafis::core::symbol::registry::"; CTX = "symb_anafis::core::unified_context::Context::"; UF = "symb_anafis::core::unified_context::UserFunction::"
class Nm(StrSym):
    """an arbitrary name, different from every other Nm"""
    __slots__ = ("n",)
    def __init__(self, n): super().__init__(sym.SymV("nm:" + n)); self.n = n
    def __repr__(self): return f"name {self.n}"
class Kv:
    """an arbitrary identity, different from every other Kv"""
    __slots__ = ("n",)
    def __init__(self, n): self.n = n
    def __repr__(self): return f"id {self.n}"
_ST = None
def ty_of(p, nm):
    for i, t in enumerate(p.types):
        if t["k"] == "adt" and t["n"].endswith(nm): return i
    raise KeyError(nm)
def fields(p, ty): return [f[0] for f in p.types[ty]["v"][0]["f"]]
def eq_hook(ex, x, y):
    for a, b in ((x, y), (y, x)):
        if isinstance(a, Kv): return a is b
        if isinstance(a, Nm):
            if isinstance(b, Nm): return a is b
            if isinstance(b, str):
                d = ex.ghost.setdefault("lit", {})
                k = (a.n, b)
                if k not in d: d[k] = ex.choose(2, f"{a} is {b!r}") == 0 if not any(v for (n, l), v in d.items() if n == a.n) else False
                return d[k]
    return None
class St:
    """state of the tables: N name->key, D key->data, R reserved, C name cache, I id cache, epoch, removals"""
    def __init__(self, ex, p):
        self.ex = ex; self.p = p; self.si = ty_of(p, "interned::InternedSymbol"); self.sy = ty_of(p, "core::symbol::Symbol")
        self.N, self.D, self.C, self.I = Cell(MapV()), Cell(MapV()), Cell(MapV()), Cell(MapV())
        self.epoch, self.rem = Cell(0), Cell(0); self.fresh = []; self.res = set(); self.shards = []
    def data(self, k, n):
        f = {"key": k, "name": models.some(self.ex, ArcV(Cell(n))) if n is not None else models.none(self.ex)}
        return Adt(self.si, 0, [f[x] for x in fields(self.p, self.si)])
    def symbol(self, k): return Adt(self.sy, 0, [k])
    def key_of(self, v):
        v = self.ex.deref_all(v)
        return v if isinstance(v, Kv) else v.f[0] if isinstance(v, Adt) and v.ty == self.sy else v.f[fields(self.p, self.si).index("key")]
    def name_of(self, v):
        o = self.ex.need_adt(self.ex.deref_all(v).f[fields(self.p, self.si).index("name")]); return self.ex.deref_all(o.f[0]) if o.f else None
    def snap(self, which): return tuple((k if not isinstance(k, (Ptr, ArcV)) else self.ex.deref_all(k), v) for k, v in self.ex.force(getattr(self, which).v).kv)
    def keys(self, which): return {id(k): k for k, _ in self.snap(which)}
    def maps(self):
        ex = self.ex; g = lambda v: self.key_of(v)
        return {"N": {self.ex.deref_all(k): g(v) for k, v in self.snap("N")}, "D": {k: self.name_of(v) for k, v in self.snap("D")},
                "C": {self.ex.deref_all(k): g(v) for k, v in self.snap("C")}, "I": {k: self.name_of(v) for k, v in self.snap("I")}}
def lib(p):
    """library contracts the registry is written against"""
    cs = {}
    def tls(ex, a0):
        v = a0
        for _ in range(6):
            if isinstance(v, Named): return v.name
            if isinstance(v, FnItem): g = p.fns[v.fid]; return g["def"] + " " + " ".join(str(p.types[i].get("n", "")) for i in g.get("args", []) if isinstance(i, int))
            if isinstance(v, Adt) and v.f: v = ex.force(v.f[0]); continue
            if isinstance(v, (Ptr, ArcV)): v = ex.force(ex.load(v)); continue
            break
        return str(v)
    def c_with(ex, fn_, a):
        n = tls(ex, a[0]); S = ex.ghost["S"]
        c = S.epoch if "CACHE_EPOCH" in n else S.I if "ID_CACHE" in n else S.C if "NAME_CACHE" in n else None
        if c is None: raise sym.Unsupported("thread local " + n)
        return ex.invoke(a[1], [Ptr(c)])
    cs["std::thread::LocalKey::<T>::with"] = c_with
    def c_replace(ex, fn_, a): v = ex.load(a[0]); ex.store(a[0], a[1]); return v
    for g in p.fns:
        if g["def"].endswith("std::convert::Into<U>>::into"):
            def into(ex, fn_, a):
                v = ex.force(a[0]); return v if isinstance(v, Kv) else NotImplemented
            cs[g["def"]] = into
    cs["std::cell::Cell::<T>::replace"] = c_replace
    cs["std::cell::Cell::<T>::get"] = lambda ex, fn_, a: ex.load(a[0])
    cs["std::cell::Cell::<T>::set"] = lambda ex, fn_, a: (ex.store(a[0], a[1]), UNIT)[1]
    def atomic(ex, fn_, a):
        n = fn_["def"].rsplit("::", 1)[1]; S = ex.ghost["S"]; v = ex.force(ex.load(a[0])); mine = not isinstance(v, Named) or "REMOVALS" in v.name
        cell = Ptr(S.rem) if mine else None
        if cell is None: return Kv("number")
        old = ex.load(cell)
        if n == "load": return old
        if n == "store": ex.store(cell, a[1]); return UNIT
        if n == "fetch_add": ex.store(cell, old + a[1]); return old
        return NotImplemented
    for g in p.fns:
        if g["def"].startswith("std::sync::atomic::Atomic"): cs[g["def"]] = atomic
    SM = "slotmap::SlotMap::<K, V>::"
    def c_ins(ex, fn_, a):
        S = ex.ghost["S"]; k = Kv(f"fresh{len(S.fresh)}"); S.fresh.append(k); v = ex.invoke(a[1], [k])
        pm = models.mptr(ex, a[0]); m = models.as_map(ex, a[0]); ex.store(pm, MapV(m.kv + ((k, v),))); return k
    cs[SM + "insert_with_key"] = c_ins
    def c_get(ex, fn_, a):
        m = models.as_map(ex, a[0]); i = models.map_find(ex, m, a[1]); return models.none(ex) if i is None else models.some(ex, Ptr(Cell(m.kv[i][1])))
    cs[SM + "get"] = c_get
    def c_rm(ex, fn_, a):
        m = models.as_map(ex, a[0]); i = models.map_find(ex, m, a[1])
        if i is None: return models.none(ex)
        ex.store(models.mptr(ex, a[0]), MapV(m.kv[:i] + m.kv[i + 1:])); return models.some(ex, m.kv[i][1])
    cs[SM + "remove"] = c_rm
    cs[SM + "len"] = lambda ex, fn_, a: len(models.as_map(ex, a[0]).kv)
    def c_retain(ex, fn_, a):
        m = models.as_map(ex, a[0]); keep = []
        for k, v in m.kv:
            c = Cell(v)
            if ex.branch(ex.invoke(a[1], [k if fn_["def"].startswith("slotmap") else Ptr(Cell(k)), Ptr(c)])): keep.append((k, c.v))
        ex.store(models.mptr(ex, a[0]), MapV(keep)); return UNIT
    cs[SM + "retain"] = c_retain
    for g in p.fns:
        if g["def"].startswith("std::collections::HashMap::<") and g["def"].endswith("::retain"): cs[g["def"]] = c_retain
    def c_entry(ex, fn_, a):
        pm = models.mptr(ex, a[0]); m = models.as_map(ex, a[0]); i = models.map_find(ex, m, a[1]); e = models.EntryV(pm, a[1])
        et = [i_ for i_, t in enumerate(p.types) if t["k"] == "adt" and t["n"] == "std::collections::hash_map::Entry"]
        return Adt(et[0], 1 if i is None else 0, [e])
    def c_vins(ex, fn_, a):
        e = a[0]; m = models.as_map(ex, e.p); ex.store(e.p, MapV(m.kv + ((e.k, a[1]),))); return Ptr(models.MapCell(ex, e.p, e.k))
    for g in p.fns:
        if g["def"].startswith("std::collections::HashMap::<") and g["def"].endswith("::entry"): cs[g["def"]] = c_entry
        if "hash_map::VacantEntry" in g["def"] and g["def"].endswith("::insert"): cs[g["def"]] = c_vins
    cs[REG + "SymbolRegistry::is_reserved"] = lambda ex, fn_, a: ex.deref_all(a[1]) in ex.ghost["S"].res
    cs[REG + "SymbolRegistry::get_shard"] = lambda ex, fn_, a: Ptr(ex.ghost["S"].shard)
    return cs
from ..sym import FnItem
def fresh_state(ex, p, want_n=None):
    """an arbitrary state satisfying the invariant, seen through the name n, another name m and their identities"""
    S = St(ex, p); ex.ghost["S"] = S; n, m = Nm("n"), Nm("m"); S.n, S.m = n, m; kn, km, ka, ko = Kv("n"), Kv("m"), Kv("anon"), Kv("gone"); S.k = dict(n=kn, m=km, anon=ka, gone=ko)
    has = ex.choose(2, "n exists") == 0; S.has = has
    N = [(m, km)] + ([(n, kn)] if has else []); D = [(km, S.data(km, m)), (ka, S.data(ka, None))] + ([(kn, S.data(kn, n))] if has else [])
    S.N.v, S.D.v = MapV(N), MapV(D)
    cur = ex.choose(2, "caches current") == 0; S.cur = cur; S.rem.v = 7; S.epoch.v = 7 if cur else 5
    C, I = [], []
    if cur:
        if ex.choose(2, "m cached") == 0: C.append((m, S.symbol(km))); I.append((km, S.data(km, m)))
        if has and ex.choose(2, "n cached") == 0: C.append((n, S.symbol(kn)))
        if has and ex.choose(2, "id of n cached") == 0: I.append((kn, S.data(kn, n)))
    else:
        # whatever was cached before the last removal
        w = ex.choose(3, "stale caches")
        if w == 0: C += [(n, S.symbol(ko)), (m, S.symbol(ko))]; I += [(ko, S.data(ko, n)), (kn, S.data(kn, m))]
        elif w == 1: C += [(n, S.symbol(km))]; I += [(km, S.data(km, n))]
    S.C.v, S.I.v = MapV(C), MapV(I)
    if ex.choose(2, "m reserved") == 0: S.res.add(m)
    if has and ex.choose(2, "n reserved") == 0: S.res.add(n)
    ts = ty_of(p, "registry::RegistryShard")
    shard = Adt(ts, 0, [S.N.v]); S.shard = Cell(shard)
    class ViaCell(Cell):
        __slots__ = ("f",)
    S.N = Proj(S.shard)
    tr = ty_of(p, "registry::SymbolRegistry"); fl = fields(p, tr)
    S.reg = {"shards": VecV([S.shard.v]), "id_to_data": None, "reserved": None}
    S.regty, S.regf = tr, fl; S.old = S.maps(); S.old_rem = S.rem.v
    return S
class Proj:
    """the name map inside the shard"""
    def __init__(self, c): self.c = c
    @property
    def v(self): return self.c.v.f[0]
def inv(S):
    """the invariant of the tables after an operation: None or a message"""
    M = S.maps()
    ks = list(M["N"].values())
    if len(set(map(id, ks))) != len(ks): return "two names share an identity"
    for n, k in M["N"].items():
        if k not in M["D"]: return f"{n} maps to an identity that does not exist"
        if M["D"][k] is not n: return f"{n} maps to the identity of {M['D'][k]}"
    if S.epoch.v == S.rem.v:
        for n, k in M["C"].items():
            if M["N"].get(n) is not k: return f"the name cache still answers {k} for {n}, the table says {M['N'].get(n)}"
        for k, n in M["I"].items():
            if k not in M["D"] or M["D"][k] is not n: return f"the identity cache still answers {n} for {k}"
    return None
def unchanged(S, but=()):
    M = S.maps()
    for w in ("N", "D"):
        if w in but: continue
        if M[w] != S.old[w]: return f"the {'name' if w == 'N' else 'identity'} table changed: {S.old[w]} -> {M[w]}"
    return None
def added(S, n, k):
    """exactly one fresh identity k named n was added"""
    M = S.maps()
    if len(S.fresh) != 1 or S.fresh[0] is not k: return f"answers {k}, not a fresh identity"
    if M["D"] != {**S.old["D"], k: n}: return f"identity table is {M['D']}"
    return None
FNS = ["symb_new", "symb_get", "symbol_exists", "symb", "symb_interned", "lookup_by_id", "lookup_by_id other", "lookup_by_id gone", "remove_symbol", "clear_symbols", "symb_anon", "symb_new_isolated", "symbol_count", "symbol_names", "refresh_caches"]
def w_reg(a):
    C, p = _ST; nm = a.split(" ")[0]; sym.EXEC.clear(); f = p.fn(REG + nm); cs = lib(p)
    if f is None: return a, H.UNDECIDED, nm + " not found", []
    def reg(ex):
        S = ex.ghost["S"]; vals = {"shards": VecV([Opaque("shard")]), "id_to_data": S.D.v, "reserved": Opaque("reserved")}
        return Adt(S.regty, 0, [vals[x] for x in S.regf])
    def run(ex):
        S = fresh_state(ex, p)
        # the registry static: the shard map and the identity map live in their own cells
        arcd = ArcV(S.D); vals = {"shards": VecV([ArcV(S.shard)]), "id_to_data": arcd, "reserved": Opaque("reserved")}
        for nm_ in ("REGISTRY",): ex.statics[REG + nm_] = Cell(Adt(S.regty, 0, [vals[x] for x in S.regf]))
        ex.statics[REG + "REMOVALS"] = S.rem
        args = {"symb_new": [S.n], "symb_get": [S.n], "symbol_exists": [S.n], "symb": [S.n], "symb_interned": [S.n], "remove_symbol": [S.n], "symb_new_isolated": [S.n],
                "lookup_by_id": [S.k["n"]], "lookup_by_id other": [S.k["anon"]], "lookup_by_id gone": [S.k["gone"]]}.get(a, [])
        return ex.run(f, args)
    def judge(ex, v):
        S = ex.ghost["S"]; old = S.old; bad = lambda w: (H.REFUTED, w); oks = lambda w: (H.PROVED, "") if not w else bad(w)
        w = inv(S)
        if w: return bad(w)
        kn = S.k["n"]; M = S.maps(); v = ex.force(v)
        if nm == "symb_new":
            r = ex.need_adt(v)
            if S.has: return oks(unchanged(S)) if r.var == 1 else bad("an existing name is created anew")
            if r.var != 0: return bad("a new name is refused")
            k = S.key_of(r.f[0]); return oks(added(S, S.n, k) or (None if M["N"] == {**old["N"], S.n: k} else "name table wrong"))
        if nm == "symb_get":
            r = ex.need_adt(v); w = unchanged(S)
            if w: return bad(w)
            if not S.has: return oks(None if r.var == 1 else "an absent name is found")
            return oks(None if r.var == 0 and S.key_of(r.f[0]) is kn else "does not answer the symbol of that name")
        if nm == "symbol_exists": return oks(unchanged(S) or (None if v is S.has else f"answers {v}"))
        if nm in ("symb", "symb_interned"):
            k = S.key_of(v)
            if nm == "symb_interned" and S.name_of(v) is not S.n: return bad("symbol of another name")
            if S.has: return oks(unchanged(S) or (None if k is kn else f"answers {k}, the name belongs to {kn}"))
            return oks(added(S, S.n, k) or (None if M["N"] == {**old["N"], S.n: k} else "name table wrong"))
        if nm == "lookup_by_id":
            o = ex.need_adt(v); k = {"lookup_by_id": kn, "lookup_by_id other": S.k["anon"], "lookup_by_id gone": S.k["gone"]}[a]
            w = unchanged(S)
            if w: return bad(w)
            if k not in old["D"]: return oks(None if not o.f else "an identity that does not exist is found")
            return oks(None if o.f and S.key_of(o.f[0]) is k and S.name_of(o.f[0]) is old["D"][k] else "does not answer the data of that identity")
        if nm == "remove_symbol":
            if not S.has or S.n in S.res: return oks(unchanged(S) or (None if v is False else "claims to have removed it"))
            if v is not True: return bad("answers false although the symbol existed")
            eN = {k: x for k, x in old["N"].items() if k is not S.n}; eD = {k: x for k, x in old["D"].items() if k is not kn}
            return oks(None if M["N"] == eN and M["D"] == eD else f"tables are {M['N']}, {M['D']}")
        if nm == "clear_symbols":
            eN = {k: x for k, x in old["N"].items() if k in S.res}; eD = {x: k for k, x in eN.items()}
            return oks(None if M["N"] == eN and M["D"] == eD else f"tables are {M['N']}, {M['D']}")
        if nm in ("symb_anon", "symb_new_isolated"): return oks(unchanged(S, ("D",)) or added(S, S.n if nm != "symb_anon" else None, S.key_of(v)))
        if nm == "symbol_count": return oks(unchanged(S) or (None if v == len(old["D"]) else f"answers {v}"))
        if nm == "symbol_names": return oks(unchanged(S) or (None if [ex.deref_all(x) for x in ex.need_vec(v).e] == list(old["N"]) else "other names"))
        if nm == "refresh_caches": return oks(unchanged(S) or (None if S.epoch.v == S.rem.v else "caches stay out of date"))
        return H.UNDECIDED, "?"
    st, why, k = rec.drive(C, p, cs, "", run, judge, opts={"eq": eq_hook, "nopanic": lambda pe, e: True, "max_dec": 40})
    return a, st, why, list(sym.EXEC)
CFNS = ["symb", "register_symbol", "with_symbol", "contains_symbol", "get_symbol", "symbol_names", "symbol_names_set", "remove_symbol", "clear_symbols", "clear_functions", "clear_all", "symbol_count", "is_empty",
        "with_function", "with_function_name", "has_function", "get_user_fn", "get_body", "get_partial", "function_names", "remove_function", "has_expandable_functions", "new"]
def w_ctx(nm):
    C, p = _ST; sym.EXEC.clear(); f = p.fn(CTX + nm); cs = lib(p)
    if f is None: return nm, H.UNDECIDED, nm + " not found", []
    # the registry by the contracts shown above
    def c_get(ex, fn_, a): S = ex.ghost["S"]; n = ex.deref_all(a[0]); k = S.maps()["N"].get(n); return models.ok(ex, S.symbol(k)) if k is not None else models.err(ex, Opaque("NotFound"))
    def add(ex, n, glob):
        S = ex.ghost["S"]; k = Kv(f"fresh{len(S.fresh)}"); S.fresh.append(k); S.D.v = MapV(S.D.v.kv + ((k, S.data(k, n)),))
        if glob: S.shard.v = Adt(S.shard.v.ty, 0, [MapV(S.N.v.kv + ((n, k),))])
        return k
    def c_iso(ex, fn_, a): return ex.ghost["S"].symbol(add(ex, ex.deref_all(a[0]), False))
    def c_new(ex, fn_, a):
        n = ex.deref_all(a[0]); S = ex.ghost["S"]
        return models.err(ex, Opaque("Duplicate")) if n in S.maps()["N"] else models.ok(ex, S.symbol(add(ex, n, True)))
    def c_symb(ex, fn_, a): n = ex.deref_all(a[0]); S = ex.ghost["S"]; k = S.maps()["N"].get(n); return S.symbol(k if k is not None else add(ex, n, True))
    def c_int(ex, fn_, a): S = ex.ghost["S"]; k = S.key_of(c_symb(ex, fn_, a)); return S.data(k, S.maps()["D"][k])
    def c_look(ex, fn_, a): S = ex.ghost["S"]; k = ex.force(a[0]); M = S.maps()["D"]; return models.some(ex, S.data(k, M[k])) if k in M else models.none(ex)
    cs.update({REG + "symb_get": c_get, REG + "symb_new_isolated": c_iso, REG + "symb_new": c_new, REG + "symb": c_symb, REG + "symb_interned": c_int, REG + "lookup_by_id": c_look, REG + "symb_anon": lambda ex, fn_, a: ex.ghost["S"].symbol(add(ex, None, False))})
    cty, ity, uty = ty_of(p, "unified_context::Context"), ty_of(p, "unified_context::ContextInner"), ty_of(p, "unified_context::UserFunction")
    cf, uf = fields(p, cty), fields(p, uty)
    def run(ex):
        S = St(ex, p); ex.ghost["S"] = S; n, m = Nm("n"), Nm("m"); S.n, S.m = n, m; S.k = {x: Kv(x) for x in ("n", "m", "cn", "cm")}
        S.has = ex.choose(2, "n exists globally") == 0
        S.D.v = MapV([(S.k["m"], S.data(S.k["m"], m)), (S.k["cn"], S.data(S.k["cn"], n)), (S.k["cm"], S.data(S.k["cm"], m))] + ([(S.k["n"], S.data(S.k["n"], n))] if S.has else []))
        S.shard = Cell(Adt(ty_of(p, "registry::RegistryShard"), 0, [MapV([(m, S.k["m"])] + ([(n, S.k["n"])] if S.has else []))])); S.N = Proj(S.shard)
        S.cs = {m: S.k["cm"]} if ex.choose(2, "context knows m") == 0 else {}
        w = ex.choose(3, "context knows n")
        if w == 0: S.cs[n] = S.k["cn"]
        elif w == 1 and S.has: S.cs[n] = S.k["n"]
        S.uf = {}; S.names = {}
        def user(tag, body): 
            g = {"arity": Opaque("arity " + tag), "body": models.some(ex, ArcV(Cell(Opaque("body " + tag)))) if body else models.none(ex), "partials": MapV([(0, ArcV(Cell(Opaque("partial " + tag))))] if body else [])}
            return Adt(uty, 0, [g[x] for x in uf])
        S.user = user; S.bodies = {}
        if ex.choose(2, "context has function m") == 0: S.bodies[m] = ex.choose(2, "m has a body") == 0; S.uf[S.k["m"]] = user("m", S.bodies[m]); S.names[m] = S.k["m"]
        if S.has and ex.choose(2, "context has function n") == 0: S.bodies[n] = ex.choose(2, "n has a body") == 0; S.uf[S.k["n"]] = user("n", S.bodies[n]); S.names[n] = S.k["n"]
        S.inner = Cell(Adt(ity, 0, [MapV([(a, S.data(k, a)) for a, k in S.cs.items()])]))
        g = {"id": 1, "inner": ArcV(S.inner), "user_functions": MapV(list(S.uf.items())), "fn_name_to_id": MapV(list(S.names.items()))}
        S.ctx = Cell(Adt(cty, 0, [g[x] for x in cf])); S.old = S.maps(); S.old_rem = S.rem.v
        byval = nm.startswith("with_"); me = S.ctx.v if byval else Ptr(S.ctx)
        S.func = user("new", True)
        if nm == "new": return ex.run(f, [])
        args = [me] + ([n] if nm in ("symb", "register_symbol", "with_symbol", "contains_symbol", "get_symbol", "remove_symbol", "with_function", "with_function_name", "has_function", "get_user_fn", "get_body", "get_partial", "remove_function") else [])
        if nm == "with_function": args.append(S.func)
        if nm == "get_partial": args.append(0)
        return ex.run(f, args)
    def look(ex, S, c):
        c = ex.deref_all(c); inner = ex.deref_all(c.f[cf.index("inner")])
        cs_ = {ex.deref_all(k): S.key_of(v) for k, v in ex.force(inner.f[0]).kv}; bad = [k for k, v in ex.force(inner.f[0]).kv if S.name_of(v) is not ex.deref_all(k)]
        return cs_, bad, {k: ex.force(v) for k, v in ex.force(c.f[cf.index("user_functions")]).kv}, {ex.deref_all(k): v for k, v in ex.force(c.f[cf.index("fn_name_to_id")]).kv}
    def judge(ex, v):
        S = ex.ghost["S"]; ok_ = lambda c, w="": (H.PROVED, "") if c else (H.REFUTED, w or f"answers {v}")
        if nm == "new":
            a, bad, u, fn = look(ex, S, v); return ok_(not a and not u and not fn and not unchanged(S), "a new context is not empty")
        byval = nm.startswith("with_"); cs_, bad, u, fn = look(ex, S, v if byval else Ptr(S.ctx)); n, m = S.n, S.m; M = S.maps()
        if bad: return H.REFUTED, f"the context keeps the symbol of another name for {bad}"
        ecs, eu, efn = dict(S.cs), dict(S.uf), dict(S.names); v = ex.force(v)
        e, glob = None, None
        if nm in ("symb", "register_symbol", "with_symbol"):
            if n in S.cs: k = S.cs[n]
            elif S.has: k = S.k["n"]
            else:
                k = S.fresh[0] if len(S.fresh) == 1 else None
                if k is None or M["D"] != {**S.old["D"], k: n} or M["N"] != S.old["N"]: return H.REFUTED, "a name unknown everywhere must get one fresh identity outside the global table"
                glob = True
            ecs[n] = k
            if nm == "symb" and S.key_of(v) is not k: return H.REFUTED, f"answers {S.key_of(v)}, should be {k}"
        elif nm == "contains_symbol": e = v is (n in S.cs)
        elif nm == "get_symbol": o = ex.need_adt(v); e = (S.key_of(o.f[0]) if o.f else None) is S.cs.get(n)
        elif nm == "symbol_names": e = sorted(x.n for x in map(ex.deref_all, ex.need_vec(v).e)) == sorted(x.n for x in S.cs)
        elif nm in ("symbol_names_set",): e = {ex.deref_all(k) for k, _ in v.kv} == set(S.cs)
        elif nm == "remove_symbol": e = v is (n in S.cs); ecs.pop(n, None)
        elif nm == "clear_symbols": ecs = {}
        elif nm == "clear_functions": eu, efn = {}, {}
        elif nm == "clear_all": ecs, eu, efn = {}, {}, {}
        elif nm == "symbol_count": e = v == len(S.cs)
        elif nm == "is_empty": e = ex.branch(v) is (not S.cs and not S.uf)
        elif nm in ("with_function", "with_function_name", "has_function", "get_user_fn", "get_body", "get_partial"):
            k = M["N"].get(n)
            if k is None or (M["N"] != {**S.old["N"], n: k}) or (not S.has and M["D"] != {**S.old["D"], k: n}): return H.REFUTED, "the name is not interned in the global table"
            glob = True
            if nm == "with_function":
                efn[n] = k; eu[k] = None
                if u.get(k) is not S.func: return H.REFUTED, "another function is stored"
                u[k] = None
            elif nm == "with_function_name":
                if n not in S.names:
                    efn[n] = k; eu[k] = None
                    if k not in u: return H.REFUTED, "no function stored"
                    u[k] = None
            elif nm == "has_function": e = v is (k in S.uf)
            else:
                o = ex.need_adt(v); has = S.bodies.get(n, False) if nm != "get_user_fn" else k in S.uf
                e = bool(o.f) is has
                if e and has:
                    x = ex.deref_all(o.f[0]); e = x is S.uf[k] if nm == "get_user_fn" else isinstance(x, Opaque) and x.what == ("body n" if nm == "get_body" else "partial n")
        elif nm == "function_names": e = {ex.deref_all(k) for k, _ in v.kv} == set(S.names)
        elif nm == "remove_function": e = v is (n in S.names); efn.pop(n, None); eu.pop(S.k["n"], None) if n in S.names else None
        elif nm == "has_expandable_functions": e = ex.branch(v) is any(S.bodies.values())
        if e is False: return H.REFUTED, f"answers {v}"
        if cs_ != ecs: return H.REFUTED, f"symbols of the context are {cs_}, should be {ecs}"
        if fn != efn: return H.REFUTED, f"function names are {fn}, should be {efn}"
        if set(u) != set(eu) or any(u[k] is not eu[k] for k in u): return H.REFUTED, f"functions are {list(u)}, should be {list(eu)}"
        w = None if glob else unchanged(S)
        return ok_(not w, w or "")
    st, why, k = rec.drive(C, p, cs, "", run, judge, opts={"eq": eq_hook, "nopanic": lambda pe, e: True, "max_dec": 40})
    return nm, st, why, list(sym.EXEC)
def contractual(C):
    global _ST
    p = mir.prog(); _ST = C, p
    for a, st, why, fns in par.run(w_reg, FNS, C):
        C.fns.update(fns); C.ob(f"registry/{a}", st, why)
    for a, st, why, fns in par.run(w_ctx, CFNS, C):
        C.fns.update(fns); C.ob(f"context/{a}", st, why)
def main():
    C = H.Check("C13")
    C.trusted = ["the MIR semantics of vf/sym.py", "HashMap, Mutex, RwLock, RefCell, LocalKey and atomics of the standard library, SlotMap of slotmap (a new key differs from every earlier key): library contracts in vf/props/c13.py and vf/models.py",
                 "SymbolRegistry::get_shard answers the same shard for the same name; is_reserved is a fixed set of names"]
    C.assume = ["operations of one thread at a time (each is checked from an arbitrary state satisfying the invariant, with caches that are current or out of date); interleavings inside one operation are not considered",
                "the rest of the tables is represented by one other named symbol, one anonymous symbol and one removed identity; the functions under contract touch entries only by key, except clear_symbols, whose retain closures are applied entry by entry"]
    contractual(C)
    bounded(C)
    rec.refuted(C)
    C.finish()
