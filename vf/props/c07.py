"""C07: compiled evaluation equals the value of the expression."""
import random, collections
from mpmath import mpf
from .. import harness as H, evalcheck as E, replay as R, oracle as O, par, vm
def main():
    C = H.Check("C07"); C.trusted = E.TRUSTED + ["assumed contracts: Expr constructors (C03), Polynomial accessors (C10), structural equality and hash (C11)"]; C.assume = E.ASSUME
    E.start()
    E.executors(C, ["inline", "heap"], True, False)
    E.compiler(C)
    E.passes(C)
    E.fdiff(C, "C07")
    E.bounded(C, "C07", 6000, 60000)
    userfns(C)
    errors(C)
    E.refuted(C)
    C.finish()
def w_user(a):
    seed, n = a; r = random.Random(seed); st = collections.Counter(); out = []
    for _ in range(n):
        ar = r.choice([1, 2]); g0 = O.Gen(r, names=tuple("$%d" % i for i in range(ar)), ufs=(), special=False, poly=True)
        body = g0.tree(2); g1 = O.Gen(r, names=("$0",), ufs=(), special=False); hb = g1.tree(2)
        # g calls h in some cases
        if r.random() < 0.4: body = ("+", [body, ("f", "hh", [("s", "$0")])])
        g = O.Gen(r, names=("x", "y"), ufs=(), special=False, poly=True)
        call = ("f", "gg", [g.tree(1) for _ in range(ar)])
        t = r.choice([lambda: call, lambda: ("+", [call, g.tree(2)]), lambda: ("*", [g.tree(1), call]), lambda: ("f", "sin", [call]), lambda: ("P", call, [(0, 1.0), (2, 3.0)]), lambda: ("/", g.tree(1), call), lambda: ("^", call, ("n", 2.0)), lambda: ("f", "gg", [call] * ar)])()
        if O.size(t) > 60: continue
        def inst(u, args):
            k = u[0]
            if k == "s" and u[1].startswith("$"): return args[int(u[1][1:])]
            if k in "+*": return (k, [inst(x, args) for x in u[1]])
            if k in "/^": return (k, inst(u[1], args), inst(u[2], args))
            if k == "f": return ("f", u[1], [inst(x, args) for x in u[2]])
            if k == "P": return ("P", inst(u[1], args), u[2])
            return u
        def exp(u):
            k = u[0]
            if k in "+*": return (k, [exp(x) for x in u[1]])
            if k in "/^": return (k, exp(u[1]), exp(u[2]))
            if k == "P": return ("P", exp(u[1]), u[2])
            if k == "f":
                b = {"gg": body, "hh": hb}.get(u[1]); a = [exp(x) for x in u[2]]
                return exp(inst(b, a)) if b is not None else ("f", u[1], a)
            return u
        envs = [{v: r.choice([0.3, 0.7, 1.3, 2.2]) * (1 + r.randrange(-50, 50) / 997) for v in "xy"} for _ in range(3)]
        st["cases"] += 1
        try:
            s = R.call(f"cevu 2 gg {ar} 1 {R.enc(body)} hh 1 1 {R.enc(hb)} 2 x y 3 {' '.join(R.hx(e[k]) for k in 'xy' for e in envs)} {R.enc(t)}", 20)
        except R.Timeout: continue
        except R.RPanic as e: out.append((t, f"compiling {R.show(t)} with gg = {R.show(body)}, hh = {R.show(hb)} panics: {e}")); break
        if s.startswith("ERR"):
            if t[0] == "f" and t[1] == "gg" and not any(x[0] == "f" and x[1] not in O.KNOWN and x[1] not in ("gg", "hh") for x in O.nodes(t)): out.append((t, f"{R.show(t)} with gg = {R.show(body)} does not compile: {s[:200]}")); break
            continue
        try: tt = O.term(exp(t))
        except Exception: continue
        for e, x in zip(envs, [R.unhx(x) for x in s.split()]):
            ee = {k: mpf(v) for k, v in e.items()}
            try: v = O.ev(tt, ee)
            except Exception: continue
            if v is None or v.scale > 1e9 or v.small < 1e-9: continue
            st["points"] += 1
            if x == x and abs(mpf(x) - v.v) <= 1e-7 * (1 + abs(v.v) + float(v.scale) * 1e-3): continue
            try:
                if E.simpdiff.illcond(exp(t), ee, abs(mpf(x) - v.v) if x == x else 1): continue
            except Exception: continue
            out.append((t, f"{R.show(t)} with gg($0..) = {R.show(body)} and hh($0) = {R.show(hb)} at {e}: compiled {x}, value {v.v}")); break
    return out[:2], st
def userfns(C):
    st = collections.Counter()
    for out, s in par.run(w_user, [(C.seed * 31 + i, 40) for i in range(200 if C.thorough else 30)], C):
        st.update(s)
        for t, what in out: C.violate("userfn:" + R.show(t)[:150], what, {"kind": "cevu", "input": R.enc(t)})
    C.bounded["user_functions_with_bodies"] = {**st, "cases": st["cases"], "bound": "two user functions, bodies of depth 2, one calling the other"}
def errors(C):
    """what cannot be compiled is refused"""
    n = 0
    for t, names in ((("s", "zz"), ["x"]), (("+", [("s", "x"), ("f", "nosuch", [("s", "x")])]), ["x"]), (("d", ("^", ("s", "x"), ("n", 2.0)), "x", 1), ["x"]), (("f", "sin", [("s", "x"), ("s", "x")]), ["x"]), (("f", "atan2", [("s", "x")]), ["x"]),
                     (("*", [("n", 2.0), ("s", "zz")]), []), (("P", ("s", "zz"), [(0, 1.0), (2, 2.0)]), ["x"]), (("/", ("n", 1.0), ("f", "nosuch", [])), ["x"]), (("^", ("s", "x"), ("s", "q")), ["x"])):
        n += 1
        try: r = E.cev(t, names, [[1.5] for _ in names])
        except R.RPanic as e: C.violate("refuse:" + R.show(t), f"compiling {R.show(t)} with parameters {names} panics: {e}", {"kind": "cev", "input": R.enc(t)}); continue
        if not isinstance(r, str): C.violate("refuse:" + R.show(t), f"{R.show(t)} compiles with parameters {names} and evaluates to {r.single}", {"kind": "cev", "input": R.enc(t)})
    C.bounded["refused_expressions"] = {"cases": n, "bound": "unbound symbols, unknown functions, wrong argument counts, unevaluated derivatives"}
