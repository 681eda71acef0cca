#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

HK = "read access to private expression nodes, rules and evaluator internals for replaying counterexamples (cfg symb_verif)"

p("C01", "Differentiation obeys the calculus rules for every expression shape",
  "For every expression and every variable, the symbolic derivative denotes the mathematical derivative of the expression: it equals it at every point where both are defined, whatever combination of sums, products, quotients, powers, polynomials, function calls and nested derivatives the expression is built from. Subexpressions that do not mention the variable contribute zero, and the result never depends on which internal shortcut was taken.",
  ["inputs"], "all expressions (any size and nesting), all variables, all sub-expressions in every position",
  "The tests differentiate a few hundred fixed formulas; the quantifier is over all trees, and the product, quotient and power rules have special-case branches (constant factors, many-factor products, numeric exponents) that only particular shapes reach.",
  ["src/diff/engine.rs", "src/core/expr/constructors.rs"],
  [("recursive derivative with product/quotient/power/chain cases", "src/diff/engine.rs derive_impl"),
   ("builder entry that limits and simplifies", "src/api/builder.rs Diff")],
  ["diff()", "Diff::diff_str", "Diff::differentiate"], HK)

p("C02", "Every built-in function's derivative formula is its true derivative",
  "For each built-in mathematical function of one or more arguments, the derivative the library produces for a call of that function equals the chain-rule derivative of the function: the sum over its arguments of the true partial derivative times the argument's derivative. This holds for every argument expression, at every point where function and formula are defined.",
  ["inputs"], "all built-in functions, all argument expressions and argument derivatives (zero, one and arbitrary)",
  "Tests check a handful of formulas by text or at sample points; the table has about seventy entries and each formula must hold for all real arguments and for every combination of constant and varying arguments.",
  ["src/functions/definitions.rs", "src/functions/registry.rs", "src/diff/engine.rs"],
  [("table of (name, arity, evaluation, derivative)", "src/functions/definitions.rs all_definitions")],
  ["diff()", "Expr::derive"], HK)

p("C03", "Building an expression never changes what it denotes",
  "Adding, subtracting, multiplying, dividing, negating and raising expressions with the library's operators and constructors yields an expression that denotes exactly the corresponding mathematical combination of the operands. The flattening, merging of like terms, constant folding and polynomial packing done on the way preserve the value wherever the operands are defined.",
  ["inputs"], "all operand expressions and all arities of sums and products",
  "Tests compare printed forms of small examples; merging and flattening act on arbitrary operand shapes (nested sums, polynomials over the same base, powers of equal bases, zeros and ones in any position).",
  ["src/core/expr/constructors.rs", "src/core/symbol/operators.rs", "src/core/expr/analysis.rs", "src/core/symbol/math_methods.rs"],
  [("n-ary sum and product construction", "src/core/expr/constructors.rs sum/product/finalize_*"),
   ("operator overloads", "src/core/symbol/operators.rs")],
  ["Expr operators", "Expr::sum", "Expr::product", "Symbol operators"], HK)

p("C04", "Algebraic, numeric, power, root, exponential rules preserve value",
  "Every algebraic, numeric, power, root, absolute-value, exponential and logarithmic simplification rewrites an expression into one with the same value wherever all variables and all subexpressions the rewrite matches are positive and both sides are defined. In domain-safe mode the rewrites that remain enabled keep the value at every real point where the original expression is defined, whatever the signs of the variables.",
  ["inputs", "configurations"], "all expressions matched by each rule, all variable values, default and domain-safe mode",
  "The suite checks named rewrites on one or two examples each and randomly samples whole simplifications; a wrong sign, a lost condition (parity, sign, zero) or a swapped exponent shows only on matching shapes and values.",
  ["src/simplification/rules/algebraic", "src/simplification/rules/numeric/mod.rs", "src/simplification/rules/root/mod.rs", "src/simplification/rules/exponential/mod.rs", "src/simplification/helpers.rs"],
  [("rewrite rules", "src/simplification/rules"), ("shared pattern helpers", "src/simplification/helpers.rs")],
  ["simplify()", "Simplify::simplify", "Expr::simplified"], HK)

p("C05", "Trigonometric and hyperbolic simplification rules preserve value",
  "Every trigonometric, inverse-trigonometric and hyperbolic simplification rewrites an expression into one denoting the same real function: for all argument expressions, equal at every point where the original is defined in domain-safe mode, and on the documented principal ranges for rewrites that are switched off in that mode.",
  ["inputs", "configurations"], "all expressions matched by each rule, all argument values",
  "Identities must hold for all arguments and coefficient combinations; the tests instantiate each at one symbol and compare text.",
  ["src/simplification/rules/trigonometric", "src/simplification/rules/hyperbolic", "src/simplification/patterns/mod.rs"],
  [("trigonometric rewrite rules", "src/simplification/rules/trigonometric"), ("hyperbolic rewrite rules", "src/simplification/rules/hyperbolic")],
  ["simplify()", "Simplify::domain_safe"], HK)

p("C06", "The simplifier only applies enabled rewrites and keeps its caches coherent",
  "Simplification always terminates within its iteration limit and returns an expression reached from the input only by rebuilding nodes with simplified children and by applying enabled rewrite rules. Remembered results are only ever reused for the expression and rule they were computed for, in domain-safe mode no domain-altering rewrite is applied, and nodes beyond the depth limit are returned untouched.",
  ["inputs", "histories", "configurations"], "all expressions, all rule outcomes, all cache states and settings",
  "Tests observe end results on small inputs; cache collisions, clearing at capacity, cycles and limits need specific histories that the suite does not create.",
  ["src/simplification/engine.rs", "src/simplification/rules/mod.rs", "src/simplification/mod.rs"],
  [("bottom-up driver, per-rule caches, cycle detection", "src/simplification/engine.rs"), ("rule registry and dispatch by kind", "src/simplification/rules/mod.rs")],
  ["Simplify::simplify"], HK)

p("C07", "Compiled evaluation equals the value of the expression",
  "For every expression that compiles, running the compiled form on an assignment of its parameters gives the value the expression denotes at that assignment, for every operator, built-in function, polynomial, shared subexpression and fused fast path. Compilation itself fails only with an error, never with a silently different program.",
  ["inputs", "programs"], "all expressions, all parameter orders, all parameter values (up to floating-point rounding)",
  "Tests and the fuzzer sample small expressions; the compiler chooses between dozens of fused instruction patterns depending on shape, sign and sharing, each needing its own combination.",
  ["src/evaluator/compiler.rs", "src/evaluator/instruction.rs", "src/evaluator/execution.rs", "src/evaluator/stack.rs", "src/evaluator/mod.rs"],
  [("expression to bytecode compiler with sharing and fusion", "src/evaluator/compiler.rs"), ("bytecode interpreter", "src/evaluator/execution.rs")],
  ["CompiledEvaluator::compile", "CompiledEvaluator::evaluate"], HK)

p("C08", "Compiled programs never leave their stack, constant, parameter or cache bounds",
  "Every program the compiler emits keeps the evaluation stack within the capacity it declares, never pops an empty stack, ends with exactly one value, and only refers to constants, parameters and cache slots that exist. The evaluator's unchecked memory operations therefore never touch memory outside what was reserved.",
  ["inputs", "programs"], "all expressions, all instruction sequences the compiler can emit",
  "Undefined behaviour does not have to show in a test run; the claim covers every instruction in every position, while the tests execute a few programs.",
  ["src/evaluator/compiler.rs", "src/evaluator/stack.rs", "src/evaluator/instruction.rs", "src/evaluator/execution.rs", "src/evaluator/simd.rs"],
  [("depth tracking while emitting", "src/evaluator/compiler.rs"), ("unchecked stack primitives", "src/evaluator/stack.rs")],
  ["CompiledEvaluator::evaluate", "CompiledEvaluator::eval_batch"], HK)

p("C09", "Batch evaluation gives each point its own single-point result",
  "Evaluating a compiled expression over many points at once writes, for each point in order, the value that evaluating that point alone gives, for every batch length including ones that are not a multiple of the vector width, and for every instruction. Mismatched or missing columns are reported as errors, and no output beyond the batch is written.",
  ["inputs"], "all instructions, all batch lengths, all column values",
  "The vector path has its own implementation of every instruction; tests compare a few expressions at a few lengths.",
  ["src/evaluator/simd.rs", "src/evaluator/mod.rs", "src/evaluator/stack.rs", "src/bindings/eval_f64.rs"],
  [("four-lane interpreter and scalar remainder", "src/evaluator/simd.rs"), ("parallel chunking", "src/bindings/eval_f64.rs")],
  ["CompiledEvaluator::eval_batch", "eval_f64"], HK)

p("C10", "Polynomial arithmetic is exact and keeps its canonical form",
  "Adding, subtracting, negating, scaling, multiplying, differentiating, dividing and taking greatest common divisors of polynomials gives the polynomial the algebra prescribes, and division satisfies dividend = quotient * divisor + remainder with a remainder of lower degree. Every operation leaves the terms sorted by strictly increasing power with no zero coefficient.",
  ["inputs"], "all pairs of polynomials over one base, all degrees, coefficients and sparsity patterns",
  "Tests use a few small dense polynomials; the merge loops have order-, cancellation- and duplicate-dependent branches over sequences of any length.",
  ["src/core/poly.rs"],
  [("sparse sorted term list", "src/core/poly.rs")],
  ["Polynomial-valued expressions in simplify() and parse()"], HK)

p("C11", "Equality, hashing and ordering of expressions agree with each other",
  "Structural equality of expressions is reflexive, symmetric and transitive, ignores only the order of summands and factors and node identities, and implies equal structural hashes and equal values. The canonical comparison used for sorting is a consistent total order on expressions, including ones holding special numbers, so that sorting never panics.",
  ["inputs"], "all pairs and triples of expressions, including those with NaN, infinities and signed zeros",
  "Order laws quantify over all triples; the tests compare particular pairs.",
  ["src/core/expr/mod.rs", "src/core/expr/hash.rs", "src/core/expr/ordering.rs"],
  [("structural hash", "src/core/expr/hash.rs"), ("canonical order", "src/core/expr/ordering.rs")],
  ["Expr ==", "HashMap<Expr, _>", "sum and product construction"], HK)

p("C12", "Parsing follows standard precedence and implicit multiplication",
  "Parsing any well-formed formula yields the expression that standard mathematical precedence and associativity prescribe, with implicit multiplication inserted exactly where two operands are adjacent and nowhere else. Malformed text gives an error: no input makes the parser panic, drop a token or invent an operand.",
  ["inputs"], "all token sequences and all input strings",
  "Tests parse fixed strings; adjacency rules and binding powers interact over arbitrary token sequences.",
  ["src/parser/implicit_mul.rs", "src/parser/pratt.rs", "src/parser/lexer.rs", "src/parser/mod.rs", "src/parser/tokens.rs"],
  [("token stream rewriting", "src/parser/implicit_mul.rs"), ("precedence climbing", "src/parser/pratt.rs"), ("tokeniser", "src/parser/lexer.rs")],
  ["parse()", "diff()", "simplify()"], HK)

p("C13", "Symbol names and identities stay in one-to-one correspondence",
  "In any history of creating, looking up, removing and clearing symbols, a name refers to one identity at a time, distinct live names have distinct identities, creating an existing name anew is refused, and operations on one context never change another context or the global table.",
  ["inputs", "histories"], "all sequences of symbol-table operations over any number of contexts",
  "The guarantee ranges over operation histories; the tests play a few short ones.",
  ["src/core/symbol/registry.rs", "src/core/symbol/interned.rs", "src/core/symbol/mod.rs", "src/core/unified_context.rs"],
  [("two-way interning tables", "src/core/symbol/registry.rs"), ("isolated contexts", "src/core/unified_context.rs")],
  ["symb", "symb_new", "symb_get", "remove_symbol", "clear_symbols", "Context"], HK)

p("C14", "Dual numbers carry exact first derivatives",
  "Every arithmetic operation and elementary or special function on dual numbers returns the function value together with the exact chain-rule derivative: if the input's derivative part is the derivative of its value part, so is the output's. This holds for all values where the function is differentiable.",
  ["inputs"], "all dual operands with arbitrary value and derivative parts, all operations",
  "Tests evaluate each function at one or two points with derivative part one; products of two varying operands and general derivative parts are not covered for most operations.",
  ["src/math/dual.rs"],
  [("operator and function implementations on dual numbers", "src/math/dual.rs")],
  ["Dual"], HK)

p("C15", "Built-in function evaluation computes the named function or declines",
  "Numerically evaluating a built-in function either returns the value of the mathematical function of that name at the arguments or declines when the argument count is wrong or a parameter is invalid; it never panics and never returns another function's value. Polynomial families and Bessel functions satisfy their three-term recurrences and boundary values for every order.",
  ["inputs"], "all built-in functions, all arguments and orders (up to approximation error)",
  "Tests compare some functions at table points; orders and recurrences range over all integers, and swapped or shifted definitions can agree at tabulated points.",
  ["src/functions/definitions.rs", "src/math/mod.rs", "src/math/polynomials.rs", "src/math/bessel.rs", "src/math/special.rs", "src/math/elliptic.rs"],
  [("evaluation closures of the function table", "src/functions/definitions.rs"), ("recurrences", "src/math/polynomials.rs, src/math/bessel.rs")],
  ["Expr::evaluate", "CompiledEvaluator::evaluate"], HK)

p("C16", "Uncertainty propagation, gradients, Hessians and Jacobians have the right entries",
  "The propagated uncertainty squared equals the double sum over all variable pairs of partial derivative times partial derivative times covariance, for any number of variables and any symmetric covariance matrix. Gradient, Hessian and Jacobian contain, at each index, the partial derivative of the indicated function with respect to the indicated variables, in the order given.",
  ["inputs"], "all expressions, any number of variables, all covariance entries (numeric, symbolic, zero)",
  "Tests use one to three variables with a few covariances; index mix-ups and dropped cross terms depend on which entries vanish.",
  ["src/uncertainty.rs", "src/api/helpers.rs", "src/api/builder.rs"],
  [("propagation formula", "src/uncertainty.rs"), ("vector calculus helpers", "src/api/helpers.rs")],
  ["uncertainty_propagation", "relative_uncertainty", "gradient", "hessian", "jacobian"], HK)

p("C17", "Substituting values or expressions commutes with the meaning of expressions",
  "Evaluating an expression under a partial assignment yields an expression that denotes the original with those variables fixed, and a number whenever every variable is known and every function defined. Substituting an expression for a variable denotes composition, and free-variable queries report exactly the variables that occur.",
  ["inputs"], "all expressions, all partial assignments and substitutions",
  "Tests evaluate particular formulas; the statement is a homomorphism over every node kind with special cases for zeros, ones, polynomials and constants.",
  ["src/core/expr/evaluate.rs", "src/core/expr/analysis.rs"],
  [("recursive evaluation", "src/core/expr/evaluate.rs"), ("substitution and variable queries", "src/core/expr/analysis.rs")],
  ["Expr::evaluate", "Expr::substitute", "Expr::variables"], HK)

p("C18", "Depth, size and name limits are enforced on every entry point",
  "When a maximum depth or node count is configured, differentiation and simplification entry points reject exactly those inputs that exceed it, and otherwise proceed; reported depth and node counts are the true ones. Differentiating with respect to a symbol that was declared fixed, or naming a symbol as both variable and function, is refused.",
  ["inputs", "configurations"], "all expressions, limits and settings",
  "Tests check one oversize and one normal input; off-by-one and entry-point differences need boundary cases for every entry.",
  ["src/api/builder.rs", "src/core/expr/analysis.rs", "src/core/expr/constructors.rs"],
  [("limit checks", "src/api/builder.rs"), ("node and depth counting", "src/core/expr/analysis.rs")],
  ["Diff::max_depth", "Diff::max_nodes", "Simplify::max_depth"], HK)

p("C19", "Printed expressions read back as the same function",
  "Printing an expression as plain text and parsing the text again gives an expression with the same value at every point: signs, parentheses, exponents, divisions and function calls are rendered so that precedence is unambiguous.",
  ["inputs"], "all expressions",
  "Round-trip tests sample formulas; parenthesisation decisions depend on combinations of parent and child kinds and signs.",
  ["src/core/display.rs", "src/parser"],
  [("plain text rendering", "src/core/display.rs")],
  ["Expr Display", "diff()", "simplify()", "parse()"], HK)

p("C20", "Concurrent use of shared symbol tables and caches is linearizable",
  "When several threads create, look up and remove symbols or evaluate shared compiled expressions at the same time, every observable result is one that some sequential order of the operations would give, and no thread sees a half-registered symbol.",
  ["schedules"], "all interleavings of operations from any number of threads",
  "Tests run a few threads without controlling the schedule.",
  ["src/core/symbol/registry.rs", "src/core/unified_context.rs", "src/evaluator/simd.rs"],
  [("reader-writer locks and thread-local buffers", "src/core/symbol/registry.rs")],
  ["symb", "CompiledEvaluator"], HK)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
