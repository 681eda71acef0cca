"""Obligations for the simplification rules: for every rule, every path of its apply() that returns a
rewritten expression satisfies  den(result) == den(input)  (contract of trait method Rule::apply)."""
import os, re, time, random, multiprocessing as mp_
import mpmath
from mpmath import mpf
from . import term as tm, mir, sym, models, den, rules, harness as H, replay as R, oracle as O
from .term import num, mk, var, fn

def find_env(ex, terms, rnd, pos, tries=120):
    vs = set()
    for t in terms: vs |= tm.free_vars(t)
    for f in ex.facts: vs |= tm.free_vars(ex.nf(f))
    for a, b in ex.eqs: vs |= tm.free_vars(ex.nf(a)) | tm.free_vars(ex.nf(b))
    vs = sorted(vs, key=lambda v: v.id)
    for i in range(tries):
        env = H.sample_env(vs, ex, rnd, i, {v: 1 for v in vs} if pos else None)
        if H.facts_ok(ex, env): return env
    return None

_P = None
def task(a):
    """one (rule, kind, mode): runs in a worker process"""
    name, kind, targets, ds, arity, max_paths, budget, seed, nsample = a
    p, cs, rf = _P
    sym.EXEC.clear()
    rnd = random.Random(seed)
    mod, f = rf[name]
    t0 = time.time()
    import signal
    class Alarm(BaseException): pass
    def onalarm(*_): raise Alarm()
    signal.signal(signal.SIGALRM, onalarm); signal.setitimer(signal.ITIMER_REAL, 3.2 * budget + 5)
    out = {"name": name, "kind": kind, "ds": ds, "proved": 0, "none": 0, "und": [], "ref": [], "samples": [], "bounded": False, "cut": [], "unsup": [], "panics": [], "paths": 0}
    def body():
        try: r = rules.run_rule(p, f, cs, kind, targets, ds, arity=arity, max_paths=max_paths, budget=budget)
        except Exception as e:
            out["unsup"].append(f"executor: {type(e).__name__} {e}"[:200]); return
        judge_paths(out, r, rnd, budget, ds, seed, nsample)
    try: body()
    except Alarm: out["cut"].append("time limit")
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    out["t"] = time.time() - t0; out["fns"] = list(sym.EXEC)
    return out
def judge_paths(out, r, rnd, budget, ds, seed, nsample):
    out["cut"] = sorted({str(c[0]) for c in r.cut}); out["unsup"] = sorted({e for e, _ in r.unsupported})[:6]; out["panics"] = sorted({str(e) for e, _ in r.panics})[:6]
    if r.bound: out["bounded"] = True
    tj = time.time()
    for ex, v in r.paths:
        out["paths"] += 1
        if getattr(ex, "arity_used", False): out["bounded"] = True
        if v is None: out["none"] += 1; continue
        try:
            den.finish(ex)
            l = den.expand(ex, den.ph(ex, ex.ghost["in"])); rr = den.expand(ex, den.ph(ex, v))
            if time.time() - tj > 3 * budget: out["cut"].append("judging budget"); break
            st, why, w = H.judge(ex, l, rr, random.Random(seed), orth="all" if ds else "pos")
        except (sym.Infeasible, den.Malformed): continue
        except sym.Cutoff as e: out["und"].append("cut " + str(e)); continue
        except Exception as e: out["und"].append(f"{type(e).__name__} {e}"[:120]); continue
        if st == H.PROVED: out["proved"] += 1
        elif st == H.UNDECIDED: out["und"].append(why + ": " + tm.show(l)[:120] + " ==> " + tm.show(rr)[:120])
        # a concrete instance of the path
        inst = None
        if st == H.REFUTED or len(out["samples"]) < nsample:
            try:
                env = dict(w[0]) if st == H.REFUTED and w and w[0] else find_env(ex, [l, rr], rnd, not ds)
                if env is not None:
                    names = {}
                    t = den.to_tree(ex, ex.ghost["in"], env, names)
                    e2 = {}
                    for s, (x, val) in names.items(): e2[s] = float(val) if val is not None else float(tm.default_value(x.a[0]))
                    inst = (t, e2)
            except Exception as e: inst = None
        if st == H.REFUTED: out["ref"].append({"why": why, "lhs": tm.show(l)[:300], "rhs": tm.show(rr)[:300], "inst": inst})
        elif inst: out["samples"].append(inst)

def subst_leaves(t, m):
    k = t[0]
    if k == "s": return m.get(t[1], t)
    if k in "+*": return (k, [subst_leaves(x, m) for x in t[1]])
    if k in "/^": return (k, subst_leaves(t[1], m), subst_leaves(t[2], m))
    if k == "f": return ("f", t[1], [subst_leaves(x, m) for x in t[2]])
    if k == "d": return ("d", subst_leaves(t[1], m), t[2], t[3])
    if k == "P": return ("P", subst_leaves(t[1], m), t[2])
    return t
def try_rule(C, idx, name, alters, t, ds, envs, st):
    """apply the real rule and compare values; returns witness or None"""
    try: s = R.call(f"rule {idx} {1 if ds else 0} {R.enc(t)}", 8)
    except R.Timeout: st["timeout"] += 1; return None
    except R.RPanic as e:
        return ("panic", str(e), None, None)
    if s == "-": st["none"] += 1; return None
    r = R.dec(s); st["applied"] += 1
    try: a, b = O.term(t), O.term(r)
    except (O.Bad, RecursionError): return None
    for e in envs:
        x = O.ev(a, e)
        if x is None: continue
        y = O.ev(b, e)
        if y is None:
            if ds and not alters and abs(x.v) > 1e-20 and x.scale < 1e6 and x.small > 1e-6:
                n = 0
                for f in (1 + 1e-7, 1 - 3e-7):
                    e2 = {k: O.mpf(v) * O.mpf(f) for k, v in e.items()}
                    if O.ev(a, e2) is not None and O.ev(b, e2) is None: n += 1
                if n == 2: return ("value", r, e, (x.v, O.mpf("nan")))
            continue
        st["points"] += 1
        if not O.same(x, y):
            if alters or not ds:
                if not O.principal_ok(t) or not O.matched_positive(t, e): continue
            return ("value", r, e, (x.v, y.v))
    return None

def run(C, mods, skip=()):
    """mods: predicate on the module path of a rule"""
    global _P
    p = mir.prog(); cs = den.base_contracts(p); rf = rules.rule_fns(p)
    _P = (p, cs, rf)
    sel = sorted(n for n in rf if mods(rf[n][0]))
    th = C.thorough
    tasks = []; meta = {}
    for n in sel:
        m = rules.rule_meta(p, n, rf[n][1], cs); meta[n] = m
        for k in m["kinds"] or []:
            modes = [False] if m["alters"] else [True, False]
            for ds in modes:
                tasks.append((n, k, m["targets"], ds, 4 if th else 3, 8000 if th else 1500, 70.0 if th else 20.0, C.seed, 400 if th else 40))
        if not m["kinds"]: C.ob(f"{n}.apply", H.UNDECIDED, "kinds of the rule not determined")
    R.binary()
    t0 = time.time()
    ctx = mp_.get_context("fork")
    with ctx.Pool(8, maxtasksperchild=6) as pool:
        res = []
        it = pool.imap_unordered(task, sorted(tasks, key=lambda t: t[0]), chunksize=1)
        for _ in tasks:
            try: res.append(it.next(timeout=max(5, C.left() - 120)))
            except mp_.TimeoutError: C.notes.append("time budget: remaining rule obligations not attempted"); break
    C.solver_s += time.time() - t0
    done = {(r["name"], r["kind"], r["ds"]) for r in res}
    for t in tasks:
        if (t[0], t[1], t[3]) not in done: C.ob(f"{t[0]}.apply[{t[1]},{'safe' if t[3] else 'default'}]", H.UNDECIDED, "not attempted (time)")
    # the real rule list
    idx = {}
    for i, x in enumerate(R.call("rules").split(" ")):
        nm = R.unesc(x.split("|")[0]); idx[nm] = i
    ridx = {}
    for n in sel: ridx[n] = find_index(p, rf, n, idx, cs)
    res.sort(key=lambda r: (r["name"], r["kind"], r["ds"]))
    import collections
    st = collections.Counter(); cases = 0
    pend = []
    for r in res:
        n = r["name"]; m = meta[n]
        C.fns.update(r["fns"])
        obn = f"{n}.apply[{r['kind']},{'safe' if r['ds'] else 'default'}]"
        why = []
        if r["cut"]: why.append("cut: " + ",".join(r["cut"]))
        if r["unsup"]: why.append("unsupported: " + "; ".join(r["unsup"])[:200])
        if r["panics"]: why.append("panic paths: " + "; ".join(r["panics"])[:200])
        if r["und"]: why.append(f"{len(r['und'])} paths undecided: " + r["und"][0])
        if r["ref"]:
            C.ob(obn, H.REFUTED, f"{r['ref'][0]['lhs']} ==> {r['ref'][0]['rhs']}")
            pend.append((obn, n, m, r))
        elif why: C.ob(obn, H.UNDECIDED, " | ".join(why) + f" ({r['proved']} rewriting paths proved)")
        else: C.ob(obn, H.PROVED, f"{r['proved']} rewriting paths, {r['none']} without rewrite", bounded="sum/product operand lists up to 3" if r["bounded"] else None)
    npaths = sum(r["proved"] for r in res)
    C.cov["slowest"] = [f"{r['name']}[{r['kind']},{r['ds']}] {r.get('t', 0):.0f}s {r['paths']} paths" for r in sorted(res, key=lambda r: -r.get("t", 0))[:25]]
    C.cov["rewriting_paths_proved"] = npaths; C.cov["paths_without_rewrite"] = sum(r["none"] for r in res)
    # refuted obligations: replay on the real code
    for obn, n, m, r in pend:
        i = ridx[n]; conf = None
        for ref in r["ref"][:12]:
            if ref["inst"] is None or i is None: continue
            t, e = ref["inst"]
            w = try_rule(C, i, n, m["alters"], t, r["ds"], [e], st)
            if w: conf = (t, e, w); break
        if not conf and i is not None: conf = search(C, i, n, m, r, st, [x["inst"] for x in r["ref"] if x["inst"]])
        report(C, "rule:" + n, obn, n, conf, r)
    # bounded stand-in: instances of every explored path through the real rule
    for r in res:
        n = r["name"]; m = meta[n]; i = ridx[n]
        if i is None: continue
        rnd = random.Random(C.seed * 31 + i)
        for t, e in r["samples"]:
            if C.left() < 60: break
            cases += 1
            w = try_rule(C, i, n, m["alters"], t, r["ds"], [e] + more_envs(e, rnd, r["ds"] and not m["alters"]), st)
            if w: report(C, "rule:" + n, f"{n}[{r['kind']}]", n, (t, e, w), r); continue
            if rnd.random() < (1.0 if th else 0.35):
                cases += 1
                t2, e2 = instantiate(t, e, rnd, m, r["ds"])
                w = try_rule(C, i, n, m["alters"], t2, r["ds"], e2, st)
                if w: report(C, "rule:" + n, f"{n}[{r['kind']}]", n, (t2, w[2], w), r)
    C.bounded["path_instances_on_real_rules"] = {"cases": cases, "applied": st["applied"], "points": st["points"], "timeouts": st["timeout"],
        "bound": "one or two concrete instances of each symbolically explored path, leaves replaced by random subexpressions of depth <= 2, compared with a 30-digit oracle"}
    return p, cs, rf, meta, ridx

def more_envs(e, rnd, signs):
    out = []
    for _ in range(2):
        d = {}
        for k, v in e.items():
            x = abs(v) * (0.8 + 0.5 * rnd.random()) + 0.05
            d[k] = x if not signs or rnd.random() < 0.5 else -x
        out.append(d)
    return out
def instantiate(t, e, rnd, m, ds):
    g = O.Gen(rnd, names=("x", "y", "t"), ufs=(), special=False, poly=False)
    mp = {}
    for s in e:
        if s.startswith("q"): mp[s] = g.tree(2)
    t2 = subst_leaves(t, mp)
    envs = [O.env(rnd, sorted(O.names(t2)), pos=not ds or m["alters"]) for _ in range(4)]
    return t2, envs
def search(C, i, n, m, r, st, seeds):
    rnd = random.Random(C.seed * 77 + i)
    pool = list(seeds) + list(r["samples"])
    for k in range(400 if C.thorough else 150):
        if not pool: return None
        t, e = rnd.choice(pool)
        t2, envs = instantiate(t, e, rnd, m, r["ds"])
        w = try_rule(C, i, n, m["alters"], t2, r["ds"], envs, st)
        if w: return (t2, w[2], w)
    return None
def report(C, key, obn, n, conf, r):
    mode = "domain-safe" if r["ds"] else "default"
    if conf:
        t, e, w = conf
        if w[0] == "panic": what = f"{n} panics on {R.show(t)}: {w[1]}"
        else: what = f"{n} ({mode} mode) rewrites {R.show(t)} to {R.show(w[1])}; at { {k: float(v) for k, v in e.items()} } the values are {mpmath.nstr(w[3][0], 12)} and {mpmath.nstr(w[3][1], 12)}"
        C.violate(key, what, {"kind": "rule", "rule": n, "domain_safe": r["ds"], "input": R.enc(t), "obligation": obn, "env": {k: str(v) for k, v in (e or {}).items()}})
    else:
        x = r["ref"][0]
        if C.baseline.get(obn) not in (H.PROVED, "bounded"):
            C.notes.append(f"{obn}: a path could not be proved and no failing input was found (never discharged on the reference tree either): {x['lhs']} ==> {x['rhs']}")
            return
        C.violate(key, f"obligation {obn}: {x['lhs']} ==> {x['rhs']} ({x['why']})", {"kind": "obligation", "obligation": obn, "verifier": x}, confirmed=False)
def find_index(p, rf, n, idx, cs):
    """the entry of the real rule list implemented by type n (by its name() result)"""
    f = rf[n][1]; pre = f["name"][:-len("apply")]
    try:
        x = rules.const_call(p, pre + "name", cs)
        nm = x[0].force(x[1])
        if not isinstance(nm, str): nm = models.S(x[0], nm)
        return idx.get(nm)
    except Exception: return None
