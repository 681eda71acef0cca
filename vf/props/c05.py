"""C05: trigonometric and hyperbolic rules preserve the value."""
from .. import harness as H, rulecheck as RC
from . import c04
def main():
    c04.check("C05", lambda m: m.startswith(("trigonometric", "hyperbolic")))
