"""C09: batch evaluation gives each point its own single-point result."""
import random, collections
from .. import harness as H, evalcheck as E, replay as R, par, simpdiff, oracle as O
def main():
    C = H.Check("C09"); C.trusted = E.TRUSTED; C.assume = E.ASSUME
    E.start()
    E.executors(C, ["simd", "scalar"], True, True)
    E.fdiff(C, "C09")
    E.bounded(C, "C09", 6000, 60000)
    big(C); columns(C)
    E.refuted(C)
    C.finish()
def w_big(a):
    seed, n = a; r = random.Random(seed); st = collections.Counter(); out = []
    for _ in range(n):
        g = simpdiff.G2(r, r.choice(["alg", "trig"]), names=("x", "y"), special=False, ufs=(), poly=True); t = g.tree(r.choice([1, 2, 3]))
        if O.size(t) > 40: continue
        # smooth bounded wrapper: differences are then not rounding
        t = ("f", "sin", [("+", [("f", "atan", [t]), ("s", "x")])])
        k = r.choice([0, 1, 3, 4, 5, 255, 256, 257, 511, 512, 513, 1023, 1027])
        st["cases"] += 1
        try: s = R.call(f"cevbig 2 x y {k} {R.hx(0.31)} {R.hx(0.0017)} {R.hx(0.77)} {R.hx(0.0023)} {R.enc(t)}", 30)
        except R.Timeout: continue
        except R.RPanic as e: out.append((t, f"{R.show(t)} over {k} points panics: {e}")); break
        if s.startswith("DIFF"):
            f = s.split()
            if f[1] in ("eval_batch", "eval_f64", "evaluate_parallel", "eval_batch_parallel") and len(f) == 5 and f[2] != "length":
                x, y = R.unhx(f[3]), R.unhx(f[4])
                if x == x and y == y and abs(x - y) < 1e-4 and O.size(t) > 6:
                    continue      # rounding amplified by cancellation
                if (x != x) != (y != y) : 
                    st["nan"] += 1; continue
            out.append((t, f"{R.show(t)} over {k} points: {' '.join(f[1:3])} gives {R.unhx(f[3]) if len(f) == 5 and f[2] != 'length' else f[3:]}, evaluated alone {R.unhx(f[4]) if len(f) == 5 and f[2] != 'length' else ''}")); break
        if r.random() < 0.3:
            m = r.choice([1, 4, 6]); u = E.bigtree(r, r.randrange(5))
            a, b = (t, u) if r.random() < 0.5 else (u, t)
            try: s = R.call(f"cevbuf 2 x y {m} {' '.join(R.hx(r.choice([0.3, 0.9, 1.4])) for _ in range(2 * m))} {R.enc(a)} {R.enc(b)}", 30)
            except R.RPanic as e: out.append((u, f"batch evaluation of {R.show(a)[:200]} then {R.show(b)[:200]} with one buffer panics: {e}")); break
            except R.Timeout: continue
            if s.startswith("TAIL"): out.append((u, "output beyond the batch written")); break
    return out, st
def big(C):
    st = collections.Counter()
    for out, s in par.run(w_big, [(C.seed * 77 + i, 25) for i in range(300 if C.thorough else 40)], C):
        st.update(s)
        for t, what in out: C.violate("many:" + R.show(t)[:150], what, {"kind": "cevbig", "input": R.enc(t)})
    C.bounded["multi_point_entries"] = {**st, "cases": st["cases"], "bound": "eval_batch, eval_batch_parallel, eval_f64, evaluate_parallel against single evaluation, batch lengths 0..1027; one buffer shared by two programs"}
def columns(C):
    """mismatched input is reported"""
    X = ("+", [("s", "x"), ("*", [("n", 2.0), ("s", "y")])]); n = 0
    for lens, outn, ok in (([4, 4], 4, True), ([4], 4, False), ([], 4, False), ([4, 4, 4], 4, False), ([4, 3], 4, False), ([3, 4], 4, False), ([5, 4], 9, False), ([5, 5], 4, False), ([5, 5], 5, True), ([5, 5], 9, True), ([0, 0], 0, True), ([1, 1], 0, False), ([8, 8], 7, False), ([4, 0], 4, False), ([0, 4], 4, False)):
        n += 1
        try: s = R.call(f"batcherr 2 x y {len(lens)} {' '.join(map(str, lens))} {outn} {R.enc(X)}")
        except R.RPanic as e: s = "PANIC " + str(e)
        if s.startswith("PANIC") or (s == "OK") != ok: C.violate(f"columns:{lens}:{outn}", f"eval_batch with column lengths {lens} and an output of {outn}: {s}, expected {'success' if ok else 'an error'}", {"kind": "batcherr", "lens": lens, "out": outn})
    # a constant program over no columns
    for outn, ok in ((1, True), (3, True), (0, False)):
        n += 1
        try: s = R.call(f"batcherr 0 0 {outn} {R.enc(('+', [('n', 1.5), ('f', 'sin', [('n', 2.0)])]))}")
        except R.RPanic as e: s = "PANIC " + str(e)
        if s.startswith("PANIC") or (s == "OK") != ok: C.violate(f"columns:none:{outn}", f"eval_batch without columns and an output of {outn}: {s}", {"kind": "batcherr", "out": outn})
    C.bounded["column_validation"] = {"cases": n, "bound": "fixed list of column-length and output-length combinations"}
