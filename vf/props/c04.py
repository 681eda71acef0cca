"""C04: algebraic, numeric, power, root, exponential rules preserve the value."""
from .. import harness as H, rulecheck as RC, simpdiff
def main():
    check("C04", lambda m: not m.startswith(("trigonometric", "hyperbolic")))
def check(pid, pred):
    C = H.Check(pid)
    C.trusted = ["rustc MIR generation (nightly, -Zmir-opt-level=0)", "vf symbolic executor and std models", "vf exponential-polynomial normaliser",
                 "assumed contracts: Expr constructors (decided by C03), Polynomial arithmetic (C10), structural equality implies equal value (C11)"]
    C.assume = ["f64 arithmetic treated as real arithmetic; comparisons against EPSILON idealised to equality",
                "operand lists of sums and products explored up to 3 (thorough: 4) entries, marked as bounded where a rule inspects them",
                "equal structural hashes treated as structural equality (64-bit collisions ignored)"]
    RC.run(C, pred)
    simpdiff.run(C, "trig" if pid == "C05" else "alg", 30000, 200000)
    C.finish()
