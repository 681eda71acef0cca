"""Obligations, numeric refutation, evidence, violation reports."""
import json, os, sys, time, random, itertools, traceback
from fractions import Fraction
import mpmath
from mpmath import mpf
from . import term as tm, mir, sym, models
from .term import T, num, mk, var, fn

ROOT = mir.ROOT
PROVED, REFUTED, UNDECIDED, SKIPPED = "proved", "refuted", "undecided", "skipped"

# ------------------------------------------------------------------ sampling
POOL = [mpf(x) for x in ("0.37", "0.8125", "1.29", "1.7", "2.3", "3.1", "0.05", "0.61", "4.7")]
def sample_env(vs, ex, rnd, i, signs=None):
    env = {}
    for v in vs:
        if v in ex.ints:
            k = rnd.choice([0, 1, 2, 3, 4, 5, 7, 1, 2, 3] if v in ex.nn else [0, 1, 2, 3, -1, -2, 4, -3, 5])
            env[v] = mpf(k)
        else:
            x = rnd.choice(POOL) * (1 + mpf(rnd.randrange(-40, 40)) / 1000)
            if v not in ex.nn and signs is None and rnd.random() < 0.45: x = -x
            if signs is not None and v in signs and signs[v] < 0: x = -x
            env[v] = x
    return env
def holds(b, env):
    """truth of a boolean term"""
    o = b.op
    if o == "not": return not holds(b.a[0], env)
    if o == "and": return holds(b.a[0], env) and holds(b.a[1], env)
    if o == "or": return holds(b.a[0], env) or holds(b.a[1], env)
    if o == "bvar": return None
    x = tm.neval(b.a[0], env)
    if o == "isint": return abs(x - mpmath.nint(x)) < mpf(10) ** -15
    if o in ("isnan", "isinf"): return False
    y = tm.neval(b.a[1], env)
    if o == "lt": return x < y
    if o == "le": return x <= y
    if o == "eq": return abs(x - y) < mpf(10) ** -18
    return None
def facts_ok(ex, env):
    for f, tv in ex.facts.items():
        try: h = holds(ex.nf(f), env)
        except tm.NumUndef: return False
        except RecursionError: return False
        if h is None: continue
        if h != tv: return False
    for a, b in ex.eqs:
        try:
            if abs(tm.neval(ex.nf(a), env) - tm.neval(ex.nf(b), env)) > mpf(10) ** -12: return False
        except tm.NumUndef: return False
    return True
def orthants(ex, vs, cap=6):
    """sign assignments consistent with the path facts about single variables"""
    vs = [v for v in vs if v not in ex.ints and v not in ex.nn]
    fixed = {}
    for f, tv in ex.facts.items():
        for v in vs:
            g = ex.nf(f)
            if g.op in ("lt", "le"):
                x, y = g.a
                if x is v and tm.isnum(y):
                    if tv and y.a[0] <= 0: fixed[v] = -1
                    if not tv and y.a[0] >= 0: fixed[v] = 1
                if y is v and tm.isnum(x):
                    if tv and x.a[0] >= 0: fixed[v] = 1
                    if not tv and x.a[0] <= 0: fixed[v] = -1
    free = [v for v in vs if v not in fixed]
    if len(free) > cap: free, rest = free[:cap], free[cap:]
    out = []
    for s in itertools.product((1, -1), repeat=len(free)):
        d = dict(fixed); d.update(zip(free, s)); out.append(d)
    return out

def compare(ex, lhs, rhs, rnd, tries=60, signs=None, need=6, extra=(), relate="lhs", sub=None):
    """numeric comparison at points satisfying the path facts -> (agreeing, witness|None, undefined-right witness)"""
    lhs, rhs = ex.nf(lhs), ex.nf(rhs)
    vs = tm.free_vars(lhs) | tm.free_vars(rhs)
    for f in ex.facts: vs |= tm.free_vars(ex.nf(f))
    for a, b in ex.eqs: vs |= tm.free_vars(ex.nf(a)) | tm.free_vars(ex.nf(b))
    vs = sorted(vs, key=lambda v: v.id)
    good = 0; und = None
    for i in range(tries):
        env = sample_env(vs, ex, rnd, i, signs)
        if sub:
            try:
                for v, t in reversed([m for m in sub if m[0].op == "var"]): env[v] = tm.neval(ex.nf(t), dict(env))
            except (tm.NumUndef, OverflowError, ValueError, ZeroDivisionError, TypeError): continue
        if not facts_ok(ex, env): continue
        try: a = tm.neval(lhs, dict(env))
        except (tm.NumUndef, OverflowError, ValueError, ZeroDivisionError): continue
        except Exception: continue
        try: b = tm.neval(rhs, dict(env))
        except (tm.NumUndef, OverflowError, ValueError, ZeroDivisionError):
            und = und or env; continue
        except Exception: continue
        if abs(a - b) > mpf(10) ** -12 * (1 + abs(a) + abs(b)): return good, (env, a, b), und
        good += 1
        if good >= need: break
    return good, None, und

class Ob:
    __slots__ = ("name", "status", "why", "wit", "bounded", "data", "t")
    def __init__(self, name): self.name = name; self.status = None; self.why = ""; self.wit = None; self.bounded = None; self.data = None; self.t = 0
    def __repr__(self): return f"{self.name}: {self.status} {self.why}"

def eq_cases(ex, depth=0, eqs=None, sub=()):
    """the path's equations solved: list of cases, each a list of (subterm, replacement) valid in that case;
    points where a solved-for coefficient vanishes are covered by the other cases only when the equation is a product, else excluded"""
    eqs = list(ex.eqs) if eqs is None else eqs
    if not eqs or depth > 8: return [list(sub)]
    a, b = eqs[0]; rest = eqs[1:]
    fs = zero_factors(ex.nf(tm.sub(a, b)))
    out = []
    for fac in fs:
        m = solve_factor(ex, fac)
        if m is None: out += eq_cases(ex, depth + 1, rest, sub); continue
        out += eq_cases(ex, depth + 1, [(repl(x, m), repl(y, m)) for x, y in rest], tuple(sub) + (m,))
    return out
def solve_factor(ex, fac):
    if fac.op == "var" and fac not in ex.ints: return fac, tm.ZERO
    for v in sorted(tm.free_vars(fac), key=lambda v: -v.id):
        if v in ex.ints or not sym.occurs_lin(fac, v): continue
        c = tm.D(fac, lambda u: tm.ONE if u is v else tm.ZERO)
        if v in tm.free_vars(c): continue
        return v, tm.div(tm.neg(tm.subst(fac, {v: tm.ZERO})), c)
    if fac.op in ("fn", "pow"): return fac, tm.ZERO
    return None
def repl(t, m):
    old, new = m
    if old.op == "var": return tm.subst(t, {old: new})
    memo = {}
    def go(u):
        if u is old: return new
        if u in memo: return memo[u]
        if any(isinstance(x, T) for x in u.a): r = mk(u.op, *[go(x) if isinstance(x, T) else x for x in u.a])
        else: r = u
        memo[u] = r; return r
    return go(t)
def zero_factors(d):
    """factors of the numerator: d == 0 iff one of them is 0"""
    while d.op in ("neg", "div"): d = d.a[0]
    if d.op == "mul": return zero_factors(d.a[0]) + zero_factors(d.a[1])
    if tm.isnum(d) and d.a[0] != 0: return []
    if d.op == "pow" and tm.isnum(d.a[1]): return zero_factors(d.a[0]) if d.a[1].a[0] > 0 else []
    return [d]
def contradicts(ex, sub):
    for f, tv in ex.facts.items():
        if tv is False and f.op == "eq":
            x, y = f.a
            for m in sub: x, y = repl(ex.nf(x), m), repl(ex.nf(y), m)
            if tm.prove_eq(x, y) is True: return True
    return False
def judge(ex, lhs, rhs, rnd, orth="all", tries=60):
    """decide lhs == rhs on the path: (status, why, witness)"""
    st, why, w = judge1(ex, lhs, rhs, rnd, orth, tries)
    if st == UNDECIDED and ex.eqs:
        for sub in eq_cases(ex):
            if not sub: return st, why, w
            if contradicts(ex, sub): continue
            l, r = lhs, rhs
            for m in sub: l, r = repl(ex.nf(l), m), repl(ex.nf(r), m)
            s2, w2, wt = judge1(ex, l, r, rnd, orth, tries, sub)
            if s2 != PROVED: return s2, w2, wt
        return PROVED, "with the path's equations solved", None
    return st, why, w
def facts_undefined(ex, ints, neg):
    for f in list(ex.facts) + [tm.mk("eq", a, b) for a, b in ex.eqs]:
        f = ex.nf(f)
        for x in f.a:
            if isinstance(x, T) and x.op not in ("lt", "le", "eq", "not", "and", "or"):
                if tm.prove_eq(x, tm.ZERO, ints, neg) is None: return True
    return False
def judge1(ex, lhs, rhs, rnd, orth="all", tries=60, sub=None):
    l, r = ex.nf(lhs), ex.nf(rhs)
    if l is r: return PROVED, "syntactic", None
    vs = sorted(tm.free_vars(l) | tm.free_vars(r), key=lambda v: v.id)
    os_ = orthants(ex, vs) if orth == "all" else [{v: 1 for v in vs if v not in ex.ints}]
    allp = True; why = ""
    for s in os_:
        neg = [v for v, k in s.items() if k < 0]
        p = tm.prove_eq(l, r, [v for v in vs if v in ex.ints], neg)
        if p is True: continue
        g, w, und = compare(ex, l, r, rnd, tries, s, sub=sub)
        if w: return REFUTED, "values differ", w
        if und is not None and g == 0:
            return REFUTED, "right side undefined where left side is defined", (und, None, None)
        if p is None and g == 0: continue          # left undefined in this orthant
        if g == 0 and p is False: 
            if facts_undefined(ex, [v for v in vs if v in ex.ints], neg): continue      # no point of this orthant on the path
            why = "no sample point"; allp = False; continue
        allp = False; why = f"normal forms differ, {g} points agree"
    return (PROVED, "", None) if allp else (UNDECIDED, why, None)

# ------------------------------------------------------------------ check driver
class Check:
    def __init__(self, pid, level="proof"):
        Check.last = self; self.done = False
        self.pid = pid; self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv: self.tier = sys.argv[sys.argv.index("--tier") + 1]
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.rnd = random.Random(self.seed * 7919 + 13)
        self.t0 = time.time(); self.obs = []; self.viol = []; self.assume = []
        self.cov = {}; self.level = level; self.bounded = {}; self.fns = set(); self.trusted = []
        self.known = load_known(pid); self.known_hit = []
        self.notes = []; self.solver_s = 0.0
        self.baseline = load_baseline(pid)
        self.budget = float(os.environ.get("VF_BUDGET", "0")) or (600.0 if self.tier == "quick" else 840.0)
    @property
    def thorough(self): return self.tier == "thorough"
    def left(self): return self.budget - (time.time() - self.t0)
    def ob(self, name, status, why="", wit=None, bounded=None, data=None):
        o = Ob(name); o.status = status; o.why = why; o.wit = wit; o.bounded = bounded; o.data = data
        self.obs.append(o); return o
    def violate(self, key, what, replay, confirmed=True):
        """replay: dict written to replays/<pid>-<n>.json"""
        from . import replay as R
        if confirmed and R.broken: return False      # there is no real code to run
        for k in self.known:
            if k["match"] == key or (k.get("prefix") and key.startswith(k["prefix"])):
                if k["match"] not in self.known_hit: self.known_hit.append(k["match"])
                return False
        if any(v[0] == key for v in self.viol): return False
        self.viol.append((key, what, replay, confirmed)); return True
    def finish(self):
        from . import replay as R
        self.done = True
        if R.broken: self.notes.insert(0, R.broken); self.bounded = {}
        dis = [o for o in self.obs if o.status == PROVED and not o.bounded]
        bnd = [o for o in self.obs if o.status == PROVED and o.bounded]
        und = [o for o in self.obs if o.status in (UNDECIDED,)]
        cov = {"obligations": len(self.obs), "discharged": len(dis), "discharged_within_stated_bound": len(bnd),
               "undischarged": [f"{o.name}: {o.why}" for o in self.obs if o.status not in (PROVED,)][:200],
               "functions_under_contract": sorted(self.fns), "back_end": "vf exponential-polynomial normaliser + z3 (linear path facts)",
               "checker_cmd": f"cd /verif && ./check {self.pid} --tier {self.tier}",
               "trusted_base": self.trusted, "bounded_stand_ins": self.bounded, "notes": self.notes,
               "solver_s": round(self.solver_s, 2)}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        if "--baseline" in sys.argv: save_baseline(self)
        for k in self.known:
            if k["match"] in self.known_hit: print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        print(f"{self.pid}: {len(self.obs)} obligations, {len(dis)} discharged, {len(bnd)} discharged within bound, "
              f"{len(self.obs) - len(dis) - len(bnd)} undischarged; bounded stand-ins: "
              + ", ".join(f"{k}={v.get('cases', '?')}" for k, v in self.bounded.items()) + f"; {time.time() - self.t0:.1f}s")
        if not self.viol: 
            print("OK"); sys.exit(0)
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        # confirmed ones first
        self.viol.sort(key=lambda v: not v[3])
        for i, (key, what, replay, conf) in enumerate(self.viol[:12]):
            p = os.path.join(ROOT, "replays", f"{self.pid}-{i}.json")
            with open(p, "w") as f: json.dump({"property": self.pid, "key": key, "what": what, "confirmed_on_real_code": conf, **replay}, f, indent=1, default=str)
            print(f"  {key}: {what}")
            print(f"VIOLATION property={self.pid} replay={p}" + ("" if conf else " no-failing-input-found"))
        sys.exit(1)

def load_known(pid):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]
def load_baseline(pid):
    p = os.path.join(ROOT, "baseline", pid + ".json")
    return json.load(open(p)) if os.path.exists(p) else {}
def save_baseline(c):
    os.makedirs(os.path.join(ROOT, "baseline"), exist_ok=True)
    d = {}
    for o in c.obs: d.setdefault(o.name, o.status if not o.bounded else "bounded")
    json.dump(d, open(os.path.join(ROOT, "baseline", c.pid + ".json"), "w"), indent=0, sort_keys=True)
