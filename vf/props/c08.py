"""C08: compiled programs never leave their stack, constant, parameter or cache bounds."""
from .. import harness as H, evalcheck as E
def main():
    C = H.Check("C08"); C.trusted = E.TRUSTED + ["assumed contracts: Expr constructors (C03), Polynomial accessors (C10)"]; C.assume = E.ASSUME
    E.start()
    E.executors(C, ["inline", "heap", "simd", "scalar"], False, True)
    E.effects(C)
    E.dispatch(C)
    E.compiler(C, True)
    E.passes(C)
    E.bounded(C, "C08", 9000, 120000)
    E.refuted(C)
    C.finish()
