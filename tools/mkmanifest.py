"""Writes MANIFEST.json from the table below (run after editing)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
src = [l.split()[0] for l in hook if "verification hook" in l]
TECH = "contract-based deductive verification of the MIR of /repo (own verifier: symbolic execution against function contracts, real-field/exponential-polynomial decision procedure, z3)"
CH = {
 "C01": ("proof", "derive_impl is verified for every expression kind against D(den(e)) with recursive calls and table/user derivatives replaced by their contracts; n-ary nodes for stated operand counts (bounded), everything else unbounded; contains_var verified likewise; bounded comparison of real derivatives with the derivative of the denotation."),
 "C14": ("proof", "Each Dual<f64> operation is verified for all inputs against the contract val' = F(val), eps' = sum dF_i*eps_i; special functions of src/math enter through assumed contracts, elliptic derivatives are bounded numeric comparison only; f64 is treated as real."),
 "C04": ("proof", "Each rule's apply() is verified per expression kind and mode against den(result) = den(input); obligations the verifier completes are counted as discharged, those that inspect operand lists up to a stated length as bounded, the rest as undischarged; a bounded end-to-end comparison with an oracle covers all rules."),
 "C05": ("proof", "As C04 for the trigonometric and hyperbolic rules."),
 "C02": ("proof", "All entries of the definition table: the derivative function of each entry is verified for all argument expressions and argument derivatives against the chain rule with the true partial derivatives; the real table is also compared with numeric differentiation of an oracle (bounded)."),
 "C07": ("proof", "Every bytecode instruction of both single-point executors is verified against one instruction contract on a stack of arbitrary height; compile_expr is verified per expression kind with recursive compilation replaced by its contract (n-ary kinds for stated sizes, bounded); each optimisation pass is verified on all instruction windows of a stated length (bounded); bounded comparison of compiled programs, user functions and fused patterns with an oracle."),
 "C08": ("proof", "For each instruction and executor: operands available imply no access outside the stack, constants, parameters, columns or cache; stack_effect equals the contract's net effect; evaluate() uses the inline buffers only for programs that fit; compile_expr and the passes keep indices in range and leave one value (passes and n-ary kinds bounded); bounded structural check of real programs."),
 "C09": ("proof", "Every instruction of the SIMD and of the scalar batch executor is verified, lane by lane and for an arbitrary point, against the same instruction contract as the single-point executors; chunking, column validation, buffers and the parallel entry points are compared with single evaluation (bounded)."),
 "C12": ("proof", "Pratt parser: parse_expr (per minimum precedence), parse_prefix (per token kind and per built-in function) and parse_expression verified against a reading of the grammar over a token stream of arbitrary length, recursive parse_expr replaced by its contract; operator tables verified for every operator; implicit multiplication verified for all pairs of token kinds. Argument lists and operator chains of one level within a stated length (bounded). The lexer is only compared on bounded random texts."),
 "C16": ("proof", "Gradient, Hessian, Jacobian and uncertainty propagation verified entry by entry for 0-3 variables and every covariance shape (bounded in the number of variables) with differentiate_by_name and simplified replaced by their contracts; CovarianceMatrix constructors and accessors likewise; bounded comparison with an oracle on the real code."),
 "C17": ("proof", "evaluate, substitute, deep_clone, has_free_variables and collect_variables verified per expression kind with recursive calls replaced by their contracts (n-ary nodes and polynomials for stated sizes, bounded); bounded comparison with an oracle on the real code."),
 "C19": ("proof", "Display of every expression kind and of polynomials: the emitted token sequence, with printed children as nonterminals of the precedence class of their kind, is read with the grammar of C12 and must denote the node (n-ary nodes and polynomials for stated sizes, bounded); number formatting for all finite numbers; bounded round trips on the real code."),
 "C03": ("proof", "Each smart constructor and operator of Expr is verified, per kind of its operands, against the denotation of the operation (n-ary constructors for stated operand counts, bounded); numeric folding on integer bases only; bounded comparison on the real code. Constants below the library's 1e-14 tolerance are idealised to zero and listed as a known finding."),
 "C06": ("proof", "The engine around the rules: rule cache, single-node and bottom-up passes, iteration loop (any number of iterations through a loop contract), depth and mode options, registry index. Chains of cache operations and rule lists within stated lengths (bounded)."),
 "C10": ("proof", "Polynomial arithmetic, calculus and conversion to and from expressions verified against coefficient sequences (bounded in the number of terms); bounded comparison with exact arithmetic on the real code."),
 "C11": ("proof", "Equality, structural hash and ordering verified per pair of kinds with comparisons of children replaced by their contracts (reflexive, symmetric, consistent with hashing; ordering antisymmetric and transitive on triples of nodes of stated size, bounded)."),
 "C13": ("proof", "Every operation of the symbol table, contexts and registries verified against an abstract map state with its invariant (names and ids one to one), one operation at a time; bounded histories on the real code compared with a reference model."),
 "C18": ("proof", "Limits: node counting, depth, and the guards of the entry points verified per kind against the counting contract (n-ary nodes bounded); bounded comparison on the real code."),
 "C15": ("proof", "Every evaluation closure of the table verified for all real arguments against the function of its name; Hermite, Legendre, spherical harmonic and Bessel functions verified by loop contracts for any order (and against explicit formulas for fixed orders, bounded); shift loops, tails, reflection and AGM steps by loop contracts; registry verified. Numerical approximations (Lanczos, rational fits, zeta, Halley, Miller start) are compared with mpmath only (bounded)."),
}
NA = {
 "C20": "Linearizability of the symbol table and of the thread-local/parallel caches is a property of schedules across lock acquisitions; the deductive machinery here verifies sequential MIR function by function and no contract within its reach (no concurrent separation logic for std::sync::RwLock/DashMap in the installed verifiers applied to this crate's generated code) decides interleavings.",
}
def main():
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "hooks": {"guard": "symb_verif", "enable": "RUSTFLAGS=\"--cfg symb_verif\" (set by vf/replay.py when it builds /verif/replay, whose path dependency is /repo)", "source_commits": src},
         "checks": [], "not_applicable": []}
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    for p in props:
        if p in CH:
            lvl, note = CH[p]
            m["checks"].append({"property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
                                "technique": TECH, "level": lvl, "level_note": note})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks")
main()
