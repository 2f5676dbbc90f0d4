#!/usr/bin/env python3
"""Writes properties.jsonl (the property list is edited here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("E01", "Building an expression denotes the arithmetic written",
  "Whichever operators, methods, constructors or operand types are used to build an expression from numbers, symbols and functions, the resulting expression has at every point the value of the arithmetic that was written. Flattening, sorting, like-term merging, identity elimination and automatic conversion to polynomial form never change that value.",
  ["programs", "inputs"], "every sequence of constructor/operator calls over numbers, symbols, functions; every evaluation point where the written arithmetic is defined",
  "Tests build a few hundred fixed expressions; the operator overload matrix times canonicalisation cases times nesting is not sampled.",
  ["src/core/expr/constructors.rs", "src/core/symbol/operators.rs", "src/core/symbol/math_methods.rs", "src/core/poly.rs", "src/core/expr/ordering.rs"],
  [("sum/product flattening and folding", "src/core/expr/constructors.rs:sum,product"), ("typed operator overloads", "src/core/symbol/operators.rs"), ("polynomial detection and arithmetic", "src/core/poly.rs")],
  ["public view of the built expression", "its value at sample points"])
p("E02", "Equality and hashing of expressions are coherent",
  "Expression equality is reflexive, symmetric and transitive, equal expressions hash equally, and a deep copy is equal to its original. Expressions that compare equal have the same value everywhere, and the same sum or product written with its operands in a different order compares equal.",
  ["inputs", "histories"], "all pairs and triples of constructed expressions, however they were built",
  "Tests compare selected pairs; the relation laws quantify over all expressions and construction histories.",
  ["src/core/expr/mod.rs", "src/core/expr/hash.rs", "src/core/expr/ordering.rs", "src/core/poly.rs"],
  [("structural equality", "src/core/expr/mod.rs:PartialEq"), ("structural hash", "src/core/expr/hash.rs"), ("canonical operand order", "src/core/expr/ordering.rs")],
  ["== and hashes of built expressions"])
p("E03", "Structural queries describe the expression that is there",
  "Node counts, depth, the set of variables, containment tests, folds and visitor walks report exactly the structure shown by inspecting the expression, and a structure-preserving map returns the same expression. A variable is reported present if and only if it occurs.",
  ["inputs"], "every expression however built",
  "Tests query a few dozen fixed expressions, mostly without polynomial or derivative nodes.",
  ["src/core/expr/analysis.rs", "src/core/visitor.rs"],
  [("recursive queries", "src/core/expr/analysis.rs"), ("visitor walk", "src/core/visitor.rs:walk_expr")],
  ["results of the query functions and visitor callbacks"])
p("E04", "Substitution and partial evaluation preserve meaning",
  "Replacing a symbol by an expression yields the expression whose value is the original evaluated with that symbol bound to the replacement, wherever the symbol occurs. Evaluating with values for some of the symbols yields a result that agrees with the original at every completion and no longer mentions the bound symbols; with all symbols bound it is the number the mathematics gives.",
  ["inputs"], "all expressions, all bindings, all partial assignments",
  "Tests substitute into a handful of small expressions.",
  ["src/core/expr/analysis.rs", "src/core/expr/evaluate.rs", "src/functions/definitions.rs"],
  [("map/substitute", "src/core/expr/analysis.rs"), ("evaluate", "src/core/expr/evaluate.rs")],
  ["substitute, evaluate, evaluate_str results"])
p("P01", "Parsed text has its conventional mathematical meaning",
  "Every well-formed formula text is accepted and denotes the value conventional notation gives it: precedence, right-associative powers, unary minus below power, implicit multiplication, function calls, scientific notation, named constants, and declared multi-letter symbols and functions. Redundant whitespace and parentheses never change the meaning.",
  ["inputs"], "all strings of the documented grammar, all sets of declared symbols and functions",
  "Tests parse some hundreds of fixed strings; the grammar is recursive and adjacency rules interact.",
  ["src/parser/lexer.rs", "src/parser/implicit_mul.rs", "src/parser/pratt.rs", "src/parser/tokens.rs"],
  [("two-pass lexing", "src/parser/lexer.rs"), ("implicit multiplication", "src/parser/implicit_mul.rs"), ("precedence climbing", "src/parser/pratt.rs")],
  ["parse result compared with the tree the grammar assigns"])
p("P02", "Parsing always terminates with a result that used all of its input",
  "For any input text parsing returns either an expression or an error, without panicking, overflowing the stack or running forever. Text outside the grammar is rejected: no part of the input is silently ignored, and wrong argument counts of known functions are reported.",
  ["inputs"], "all strings, including malformed, deeply nested and non-ASCII ones",
  "Tests reject a few dozen malformed strings.",
  ["src/parser/lexer.rs", "src/parser/pratt.rs", "src/parser/mod.rs"],
  [("lexer errors", "src/parser/lexer.rs"), ("end-of-input and argument checks", "src/parser/pratt.rs")],
  ["parse outcome"])
p("D01", "Printed expressions parse back to the same value",
  "The plain-text form of every expression parses (declaring its symbols and functions) to an expression with the same value everywhere. This holds for every way the expression came about: built, parsed, simplified or differentiated.",
  ["inputs", "histories"], "all expressions with finite numbers, however produced",
  "Round trips are tested for a few fixed strings; parenthesisation depends on the nesting of every pair of node kinds.",
  ["src/core/display.rs", "src/parser/pratt.rs"],
  [("precedence-aware printing", "src/core/display.rs")],
  ["display text, reparsed"])
p("D02", "LaTeX and Unicode output denote the expression",
  "The LaTeX and Unicode forms, read with the ordinary conventions of those notations, denote the same value as the expression they print. No operand, sign, exponent or grouping is lost.",
  ["inputs"], "all expressions with finite numbers",
  "Tests compare a few fixed output strings.",
  ["src/core/display.rs"],
  [("LaTeX formatter", "src/core/display.rs:LatexFormatter"), ("Unicode formatter", "src/core/display.rs:UnicodeFormatter")],
  ["to_latex and to_unicode text read by the specification's readers"])
p("F01", "Symbolic derivatives are the derivatives",
  "Differentiating an expression with respect to a symbol gives an expression whose value is the partial derivative wherever that derivative exists, for every combination of arithmetic and built-in functions. This holds with and without the simplification step, for repeated differentiation, and through both the typed and the string interface.",
  ["inputs", "programs"], "all expressions over the built-in operations, all variables, all points where the derivative exists",
  "Oracle tests cover single functions and a few compositions at few points.",
  ["src/diff/engine.rs", "src/functions/definitions.rs", "src/api/builder.rs", "src/core/poly.rs"],
  [("derivation rules", "src/diff/engine.rs"), ("per-function derivative table", "src/functions/definitions.rs")],
  ["derivative expression evaluated against the calculus rules"])
p("F02", "User functions differentiate by the chain rule over their partials",
  "The derivative of an expression with user functions equals the chain rule applied with the registered partial derivatives; where none is registered, the result keeps formal derivative notation that denotes the partial derivative of the named function at its arguments. Arguments, argument order and nesting of user functions are respected.",
  ["inputs", "configurations"], "all expressions with user functions of any arity, all sets of registered bodies and partials",
  "Tests use a handful of one- and two-argument functions.",
  ["src/diff/engine.rs", "src/core/unified_context.rs", "src/api/builder.rs"],
  [("user function branch of differentiation", "src/diff/engine.rs"), ("partial registry", "src/core/unified_context.rs")],
  ["derivative expression with user functions interpreted"])
p("F03", "Gradient, Hessian and Jacobian collect the right partials",
  "Each entry of a gradient, Hessian or Jacobian is the corresponding partial derivative, in the order of the given functions and variables, and the Hessian is symmetric in value. The string versions give the same results as the expression versions.",
  ["inputs"], "all expressions, all variable lists",
  "Tests check a few fixed examples.",
  ["src/api/helpers.rs"],
  [("gradient/hessian/jacobian", "src/api/helpers.rs")],
  ["matrices of derivative expressions"])
p("F04", "Builder options and limits are enforced exactly",
  "Depth and node limits reject precisely the inputs that exceed them and never change the result of inputs within them; differentiating with respect to a symbol declared fixed, and names that are both symbol and function, are reported as errors. Results do not depend on which of the equivalent entry points is used.",
  ["configurations", "inputs"], "all option combinations and inputs around the limits",
  "Tests check single options on single inputs.",
  ["src/api/builder.rs", "src/lib.rs", "src/api/helpers.rs"],
  [("limit checks", "src/api/builder.rs"), ("name collision checks", "src/api/builder.rs")],
  ["error kind or result of each call"])
p("M01", "Simplification preserves value",
  "Simplifying an expression yields one with the same value at every point where the original is defined, everything under roots, logarithms and non-integer powers is positive, and inverse trigonometric functions applied to trigonometric ones are on their principal branch. No rule application, rule order or combination changes the value there.",
  ["inputs"], "all expressions, all such points",
  "Each rule is tested on one or two trigger expressions; interactions of the 100+ rules are not.",
  ["src/simplification/engine.rs", "src/simplification/rules", "src/simplification/helpers.rs", "src/core/poly.rs"],
  [("rule set applied to a fixpoint", "src/simplification/engine.rs"), ("polynomial normalisation", "src/core/poly.rs")],
  ["value of the simplified expression"])
p("M02", "Domain-safe simplification preserves value and definedness everywhere",
  "In domain-safe mode the simplified expression is defined and has the same value at every real point where the original is, including negative arguments under even powers and roots.",
  ["inputs"], "all expressions, all real points where the original is defined",
  "Only a few identities are tested in this mode.",
  ["src/simplification/engine.rs", "src/simplification/rules"],
  [("domain-altering rules are skipped", "src/simplification/engine.rs"), ("rule domain flags", "src/simplification/rules/mod.rs")],
  ["value of the simplified expression at positive and negative points"])
p("M03", "Simplification terminates and is deterministic",
  "Simplification and differentiation return for every expression, without panicking, and give the same result for the same expression every time, independently of earlier calls, of other threads and of the order in which symbols were created. Simplifying an already simplified expression keeps its value and terminates.",
  ["inputs", "histories", "schedules"], "all expressions, all preceding call histories, concurrent calls",
  "Tests run each expression once in one process.",
  ["src/simplification/engine.rs", "src/core/expr/ordering.rs", "src/core/poly.rs"],
  [("iteration limit and cycle handling", "src/simplification/engine.rs"), ("per-rule caches", "src/simplification/engine.rs")],
  ["outcome and printed result of repeated calls"])
p("V01", "Compiled evaluation computes the expression",
  "A compiled expression evaluated at any parameter values returns the value of the expression there up to rounding, whatever its size, shape, sharing of subexpressions, parameter order or nesting of user functions. It agrees with interpreting the expression directly.",
  ["inputs", "programs"], "all expressions and parameter vectors",
  "Tests compile a few dozen expressions; bytecode fusion, subexpression caching and stack spilling depend on shape.",
  ["src/evaluator/compiler.rs", "src/evaluator/execution.rs", "src/evaluator/stack.rs", "src/evaluator/instruction.rs"],
  [("compilation with CSE and fusion", "src/evaluator/compiler.rs"), ("scalar interpreter", "src/evaluator/execution.rs")],
  ["evaluate results"])
p("V02", "Batch, SIMD and parallel evaluation equal point-by-point evaluation",
  "Evaluating many points at once, serially or in parallel, with or without a reused work buffer, returns for every point what evaluating that point alone returns, for every number of points and every chunk and lane boundary. Every output slot is written with its own point's result.",
  ["inputs", "schedules"], "all expressions, all batch sizes including remainders and the chunk size, all thread schedules",
  "Tests use few batch sizes and expressions; lane remainders, chunk edges and buffer reuse are combinations.",
  ["src/evaluator/simd.rs", "src/bindings/eval_f64.rs"],
  [("4-lane SIMD interpreter", "src/evaluator/simd.rs"), ("chunked parallel driver", "src/evaluator/simd.rs, src/bindings/eval_f64.rs")],
  ["output arrays"])
p("V03", "Compilation and batch calls report misuse and honour their contract",
  "Unbound symbols, unknown functions, wrong column counts, unequal column lengths and too small outputs are reported as the documented errors and write nothing out of bounds; automatic parameters are exactly the free symbols. User functions with bodies evaluate as their bodies, and missing trailing parameters count as zero.",
  ["inputs", "configurations"], "all expressions, parameter lists, contexts and buffer shapes",
  "Tests check one instance of each error.",
  ["src/evaluator/mod.rs", "src/evaluator/compiler.rs", "src/evaluator/simd.rs"],
  [("compile checks", "src/evaluator/mod.rs"), ("dimension checks", "src/evaluator/simd.rs")],
  ["error kinds, parameter lists, values"])
p("V04", "Parallel multi-expression evaluation substitutes exactly what was asked",
  "For each expression and point, the result is the expression with that point's values substituted: numbers give the numeric value, expressions are substituted symbolically, and skipped or absent variables stay symbolic. Results come in input order and in the type of the input, whatever the mix of inputs or thread schedule.",
  ["inputs", "schedules"], "all lists of expressions, variables and values",
  "Tests check a few fixed combinations.",
  ["src/bindings/parallel.rs"],
  [("numeric fast path and symbolic path", "src/bindings/parallel.rs")],
  ["result lists"])
p("U01", "Propagated uncertainty is the first-order formula",
  "The propagated uncertainty of an expression is the square root of the sum over all pairs of variables of the product of partial derivatives and covariance, with symbolic variances when none are given, and relative uncertainty is it divided by the absolute value of the expression. Off-diagonal covariances of either sign contribute twice through symmetry.",
  ["inputs"], "all expressions, variable lists and symmetric covariance matrices",
  "Tests check a few linear and product cases.",
  ["src/uncertainty.rs"],
  [("sum over covariance entries", "src/uncertainty.rs:uncertainty_propagation")],
  ["resulting expression's value"])
p("U02", "Covariance input is validated",
  "A covariance matrix is accepted exactly when it is square and its numeric entries are symmetric, and its entries read back as given; using it with a different number of variables is an error. Diagonal constructors place each variance on the diagonal and zero elsewhere.",
  ["inputs"], "all matrices of numeric and symbolic entries",
  "Tests check one non-square and one asymmetric matrix.",
  ["src/uncertainty.rs"],
  [("matrix validation", "src/uncertainty.rs:new")],
  ["constructor outcome and entries"])
p("N01", "Dual-number programs compute value and derivative",
  "Any program over dual numbers returns in its value part the program's real result and in its infinitesimal part the exact derivative with respect to the seeded variable, wherever it is differentiable. Nesting dual numbers gives second derivatives.",
  ["programs", "inputs"], "all programs over the supported operations, all points",
  "Tests check single functions at single points.",
  ["src/math/dual.rs"],
  [("operator and function overloads", "src/math/dual.rs")],
  ["value and infinitesimal parts"])
p("N02", "Numeric functions agree with their mathematical definition",
  "Evaluating a built-in function at a real argument returns its mathematical value to the accuracy of its approximation, and returns no finite number where the function is undefined. The compiled and the interpreted evaluation agree on value and domain.",
  ["inputs"], "all built-in functions, all arguments incl. domain boundaries and negative values",
  "Tests check tabulated values at a few arguments.",
  ["src/math/special.rs", "src/math/bessel.rs", "src/functions/definitions.rs", "src/evaluator/execution.rs"],
  [("special function approximations", "src/math"), ("domain guards", "src/functions/definitions.rs")],
  ["evaluation results"])
p("S01", "The symbol registry behaves as a map from names to identities",
  "Looking up or creating a symbol returns the same identity for the same name and different identities for different names; strict creation fails exactly when the name exists and strict lookup exactly when it does not; removal and clearing make names absent, after which they can be created anew. Counts and listings describe the current content, on every thread.",
  ["histories"], "all sequences of registry operations, on one or several threads in sequence",
  "Tests run short fixed sequences.",
  ["src/core/symbol/registry.rs", "src/core/symbol/mod.rs"],
  [("sharded name and id tables", "src/core/symbol/registry.rs"), ("thread-local caches", "src/core/symbol/registry.rs")],
  ["identities, errors, counts"])
p("S02", "Concurrent registry use is linearizable",
  "Under any interleaving of threads creating, strictly creating, looking up and listing symbols, every outcome is explained by some sequential order consistent with real time: one identity per name, exactly one successful strict creation, and no lost or duplicate entries. Counts and listings afterwards are exact.",
  ["schedules", "histories"], "all interleavings of concurrent registry operations",
  "Tests start a few threads without controlling or checking interleavings.",
  ["src/core/symbol/registry.rs"],
  [("per-shard locks and double-checked insertion", "src/core/symbol/registry.rs")],
  ["invocation/response histories"])
p("S03", "Contexts isolate symbols and functions",
  "A context hands out one stable identity per name and answers containment, listing, counting and removal for exactly the names it holds; its functions exist only where it is supplied. Two contexts, or a context and the global registry, never affect each other's content.",
  ["histories"], "all sequences of operations on several contexts and the registry",
  "Tests run short fixed sequences on one or two contexts.",
  ["src/core/unified_context.rs"],
  [("context symbol and function maps", "src/core/unified_context.rs")],
  ["identities, listings, parse and evaluation outcomes"])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
