#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, text, why, files, mech, observe, note, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = state
    assert len(title) <= 80, title
    P.append((d, note))

A = "src/arithmetics/"
X = "src/exponential/"
M = "src/manipulation/"
S = "src/symbols/"
B = "src/base/"
R = M + "simplification_rules/"
XR = M + "expansion_rules/"
arith = [A + f for f in ("addition.rs", "subtraction.rs", "multiplication.rs", "division.rs")]

p("C01", "Building an expression never changes its value",
  "An expression built from integers, reals and variables with +, -, *, /, unary minus, integer powers and the n-ary sum and product denotes, at every assignment of numbers to its variables where the written formula is defined, exactly the number the formula denotes (up to f64 rounding when it contains real literals). No variable appears in it that is not in the formula.",
  ["inputs", "programs"], "every formula over the four operations, negation, n-ary sums and products and integer powers, with integers of any size, real literals and any variables, and every valuation at which it is defined",
  "The constructors collect constants, split off signs, cancel quotients and flatten groups in combinations; the tests build a few dozen fixed two- or three-item formulas.",
  arith + [X + "power.rs", B + "commutative_association.rs"],
  [("constant folding and flattening of sums", A + "addition.rs"), ("constant folding, sign splitting and flattening of products", A + "multiplication.rs"), ("gcd cancellation of quotients", A + "division.rs")],
  ["Expression::addition/multiplication/division/subtraction, + - * / and unary -"],
  "random formulas compared with an exact rational evaluator (interval-style tolerance only where real literals occur)")

p("C02", "Every spelling of an operation gives the same result",
  "Operator forms on values and on references (in all four combinations), unary minus in both forms, the named constructor functions and the method forms of an operation all give identical expressions for the same operands. No operand passed by reference is modified, and repeating the call gives the same result.",
  ["inputs"], "every pair of operands and every spelling of +, -, *, /, negation, power and logarithm",
  "Four operator impls per operation are separately written; tests exercise each on one or two operand pairs.",
  arith + [X + "power.rs", X + "logarithm.rs"],
  [("operator overloads", A + "*.rs"), ("pow/log methods", X + "*.rs")],
  ["std::ops impls of Expression and &Expression, Expression::power/logarithm, .pow(), .log()"],
  "differential: all spellings of one operation on generated operands, plus the value oracle of C01")

p("C03", "Integer arithmetic is exact at any size",
  "Sums, differences, products, negations, exact quotients and non-negative integer powers of integer literals are the exact integer, whatever its size. A quotient of integers that is not an integer is the fraction in lowest terms, and a negative power of an integer is the exact inverse.",
  ["inputs", "programs"], "all integers (generated up to several hundred bits, with the boundaries of 32, 53, 63, 64 and 128 bits), chained through the constructors",
  "Tests use one- and two-digit integers; overflow, sign and gcd errors appear only for other magnitudes and signs.",
  arith + [X + "power.rs", S + "integer.rs"],
  [("Integer symbols over BigInt", S + "integer.rs"), ("gcd cases of division", A + "division.rs"), ("integer to integer power", X + "power.rs")],
  ["+ - * / pow on Integer expressions"],
  "exact comparison with BigInt/BigRational arithmetic")

p("C04", "Order and grouping of a sum or product do not matter",
  "Adding the same integers, real-free terms and variables in any order and any grouping, with any mix of binary operators and n-ary constructors, gives the same expression, and likewise for multiplying them.",
  ["inputs", "programs"], "every permutation and every nesting of groups of the same list of items, any length",
  "Tests check commutativity for a pair or two of operands; a fixed order of the same three symbols cannot show dependence on order or nesting.",
  [A + "addition.rs", A + "multiplication.rs", B + "commutative_association.rs", M + "expression_equality.rs", M + "ordeable.rs"],
  [("flattening", A + "addition.rs"), ("sorted items", B + "commutative_association.rs")],
  ["Expression::addition/multiplication, ==, hash, printed form"],
  "metamorphic: two random orders and groupings of one generated list must be identical")

p("C05", "Powers denote what they say and obey the power identities",
  "A power built from any base and exponent (numbers, nested powers, products, symbolic or rational exponents) denotes base to the exponent wherever that is defined: for any base when every factor of the exponent is an integer, and for positive bases (built from positive variables) with any exponent. Exponent 0 gives 1, exponent 1 gives the base, base 1 gives 1, a power of a power has the product of the exponents, and numeric factors are taken out of a product's power.",
  ["inputs", "programs"], "all bases and exponents in that domain, nested to any depth, with every spelling of 0 and 1 (integer or real)",
  "Tests check each identity on one symbol; the identities interact (numeric base with symbolic negative exponent, real with integer, nested powers of products).",
  [X + "power.rs"],
  [("power identities", X + "power.rs"), ("power of power, distribution over numeric factors", X + "power.rs")],
  ["Expression::power, .pow()"],
  "random powers against the exact evaluator at integer or positive valuations; identities checked structurally")

p("C06", "Logarithms denote what they say and invert powers",
  "A logarithm with positive argument and a positive base other than one denotes the number log_base(argument); for integer arguments that are exact powers of an integer base it is that exact integer, at any size. The logarithm of a power of its base is the exponent, and a base raised to its own logarithm is the argument.",
  ["inputs", "programs"], "all positive arguments and bases (integers of any size, reals, symbolic), in any nesting with powers",
  "Tests use log(8,2)-like literals; near-powers, large integers and mixed real/integer operands need search.",
  [X + "logarithm.rs", X + "power.rs", R + "identities/inverse_power_log.rs"],
  [("numeric logarithms", X + "logarithm.rs"), ("inverse identities", X + "logarithm.rs, " + X + "power.rs")],
  ["Expression::logarithm, .log()"],
  "random logarithms against an evaluator with exact detection of rational logarithms; integer logarithms against integer exponentiation")

p("C07", "expand() never changes the value of an expression",
  "At every assignment of numbers to the variables where an expression is defined, its expanded form is defined and denotes the same number (up to f64 rounding when real literals are involved). Powers count as defined where every factor of the exponent is an integer, or where the variables and the base are positive.",
  ["inputs", "programs"], "every expression, including products and powers of sums, symbolic and negative exponents, and expressions already expanded or simplified",
  "Tests expand about ten fixed products and squares; distribution over wider sums, higher powers, quotients and signs is unsampled.",
  [M + "expand.rs", XR + "multiplicative_distributive.rs", XR + "power_distributive_addition.rs"],
  [("distribution of products over sums", XR + "multiplicative_distributive.rs"), ("distribution of integer powers over sums", XR + "power_distributive_addition.rs")],
  ["Expression::expand"],
  "random expressions: exact value before and after at several valuations")

p("C08", "expand() distributes completely and is idempotent",
  "After expand() no product has a sum as a factor and no sum is raised to a literal integer power of two or more, at any depth outside sine and cosine arguments, which it does not visit. Expanding again changes nothing, and the terms of an expanded integer polynomial add up, monomial by monomial, to the polynomial.",
  ["inputs", "programs"], "every expression over sums, products, quotients and integer powers",
  "Completeness is a statement about every nesting; tests compare a few expansions with a hand-written result.",
  [M + "expand.rs", XR + "multiplicative_distributive.rs", XR + "power_distributive_addition.rs"],
  [("recursive expansion", M + "expand.rs"), ("rules re-applied to their own results", XR)],
  ["Expression::expand"],
  "shape predicate, idempotence, and comparison with an independent multivariate polynomial implementation")

p("C09", "simplify() never changes the value of an expression",
  "At every assignment of numbers to the variables where an expression is defined, its simplified form is defined and denotes the same number (up to f64 rounding when real literals are involved). Powers count as defined where every factor of the exponent is an integer, or where the variables and the base are positive.",
  ["inputs", "programs"], "every expression, including symbolic exponents, logarithms, repeated terms and factors, rational constants and earlier results of expand and simplify",
  "simplify chains four rules recursively; the tests check about twenty fixed inputs.",
  [M + "simplifiable.rs", R + "factoring/additive_common_addend.rs", R + "factoring/multiplicative_common_factor.rs", R + "rational/rationals_addition.rs", R + "rational/rationals_multiplication.rs"],
  [("merging equal addends", R + "factoring/additive_common_addend.rs"), ("merging equal bases", R + "factoring/multiplicative_common_factor.rs"), ("folding rational constants", R + "rational")],
  ["Expression::simplify"],
  "random expressions: exact value before and after at several valuations")

p("C10", "simplify() is canonical on integer polynomials",
  "Two expressions that are the same polynomial with integer coefficients simplify to the same expression: the sum of the polynomial's monomials, each with its exact collected coefficient and powers, with vanished terms gone. In particular a polynomial identity simplifies to 0.",
  ["inputs", "programs"], "all pairs of ways of writing an integer polynomial with +, -, *, negation and non-negative integer powers of numbers, variables and sums (a power of a product of several factors, such as (a*b)^2, is not taken apart by the library and not claimed)",
  "Canonicity quantifies over all pairs of spellings; tests compare a few spellings with one expected result.",
  [M + "simplifiable.rs", R + "factoring/additive_common_addend.rs", R + "factoring/multiplicative_common_factor.rs", M + "expand.rs"],
  [("expand before merging", M + "simplifiable.rs"), ("coefficient counters", R + "factoring/additive_common_addend.rs"), ("exponent map", R + "factoring/multiplicative_common_factor.rs")],
  ["Expression::simplify, =="],
  "comparison with an independent polynomial implementation and between random rewritings of one polynomial")

p("C11", "simplify() merges equal factors",
  "After simplify() a product of variables, opaque functions and their powers holds each base at most once, with the sum of its integer exponents, and a base whose exponents cancel is gone; with symbolic exponents the exponents are added likewise. Products and quotients of monomials therefore simplify to the Laurent monomial they denote.",
  ["inputs", "programs"], "all products and quotients of powers of variables and opaque terms, integer (of any sign) or symbolic exponents, any grouping of the factors; what is divided by, or raised to a power, is a single base or a power of one (a quotient by or a power of a product, such as a/(a*b), counts as a base of its own and is not claimed)",
  "Tests merge two or three factors of one or two bases; sign and cancellation across quotients, nesting and many bases are unsampled.",
  [R + "factoring/multiplicative_common_factor.rs", M + "simplifiable.rs", A + "division.rs"],
  [("exponent map per base", R + "factoring/multiplicative_common_factor.rs")],
  ["Expression::simplify"],
  "exponent vectors computed independently, compared with the factors of the result")

p("C12", "simplify() folds rational constants exactly",
  "An expression without variables built from integers with +, -, *, / and integer powers simplifies to the one fraction in lowest terms (or integer) it denotes. The constant part of a sum, and the numeric coefficient of a product, simplify to one exact fraction as well.",
  ["inputs", "programs"], "all closed expressions over integers of any size with non-zero divisors, alone or among variables",
  "Tests fold two or three small fractions; gcd, sign and accumulation errors depend on the numbers.",
  [R + "rational/rationals.rs", R + "rational/rationals_addition.rs", R + "rational/rationals_multiplication.rs", A + "division.rs", M + "simplifiable.rs"],
  [("Rational accumulation", R + "rational/rationals_addition.rs"), ("rational products", R + "rational/rationals_multiplication.rs")],
  ["Expression::simplify"],
  "exact BigRational value and lowest-terms shape of the result")

p("C13", "Comparisons are sound and coherent",
  "When comparable, equal, greater, lesser, greater_equal, lesser_equal or not_equal reports a relation between two expressions, that relation holds at every valuation where both are defined. The seven answers always agree with each other, infinities and NaN included (exactly one of less, equal, greater when comparable, none of them otherwise), swapping two numbers or polynomials swaps the answers, and the order they define on expressions that differ by numbers is transitive.",
  ["inputs", "programs"], "all pairs (and triples) of expressions, including ones that are equal only after simplification",
  "Soundness is over all pairs and valuations; the tests compare four or five literal pairs.",
  [M + "expression_comparison.rs"],
  [("sign of the simplified difference", M + "expression_comparison.rs")],
  ["comparable/equal/not_equal/greater/lesser/greater_equal/lesser_equal"],
  "answers against exact values at many valuations; cross-consistency of the seven answers")

p("C14", "Comparisons decide numbers and integer polynomials",
  "Any two numbers built from integers, reals, quotients and integer powers are comparable, with the answer of exact arithmetic (away from f64 rounding). Two integer polynomials are comparable exactly when their difference is a constant, with the sign of that constant deciding, and every expression is equal to itself however its sums and products are ordered.",
  ["inputs", "programs"], "all closed expressions, all pairs of integer polynomials, all re-orderings of an expression",
  "Tests decide a handful of literal pairs; near-equal fractions, negative, mixed and large numbers need search.",
  [M + "expression_comparison.rs", R + "rational/rationals.rs"],
  [("numeric value of the difference", M + "expression_comparison.rs")],
  ["comparable/equal/not_equal/greater/lesser/greater_equal/lesser_equal"],
  "exact order of BigRationals, and of reference polynomials, as the oracle")

p("C15", "Equality, order and hash of expressions form one contract",
  "== is an equivalence and is structural: it holds exactly for expressions of the same kind with equal parts, ignoring the order of addends and factors. cmp is a total order consistent with ==, with partial_cmp and with the comparison operators, and equal expressions hash equally, so sorting, hash sets and ordered sets agree on which expressions are distinct (also for reals that are NaN, infinite or signed zeros).",
  ["inputs"], "all pairs and triples of expression trees, of reals, and all collections of them",
  "Transitivity, antisymmetry and hash agreement quantify over pairs and triples; tests compare a few symbols.",
  [M + "expression_equality.rs", M + "ordeable.rs", B + "commutative_association.rs", B + "associative_operation.rs", B + "operation.rs", S + "real.rs", S + "integer.rs", S + "variable.rs"],
  [("structural equality", M + "expression_equality.rs"), ("order by kind then parts", M + "ordeable.rs"), ("Hash impls", S)],
  ["==, cmp, partial_cmp, <, hash, sort, HashSet, BTreeSet"],
  "algebraic laws of the contract on generated pairs, triples and collections, with an independent structural comparison as the reference")

p("C16", "The printed form is faithful",
  "Printing an expression gives text in the documented notation (sums and products in parentheses with + and *, pow, log, sin, cos) that reads back to an equal expression. Two different expressions over integers and variables never print the same, and equal ones always do.",
  ["inputs"], "all expressions (associations of two or more items, finite reals)",
  "Tests print a few expressions; ambiguity shows only between pairs of different trees.",
  [B + "expression.rs", S + "integer.rs", S + "real.rs", S + "variable.rs"],
  [("Display of Expression", B + "expression.rs"), ("label() of symbols", S)],
  ["format!(\"{}\", expression)"],
  "round-trip through an independent parser; injectivity on pairs that differ by a small edit")

p("C17", "Rational numbers are exact, reduced and recognised",
  "A Rational made from a numerator and a non-zero denominator is in lowest terms with a positive denominator, its sum, difference, product and quotient are exact, == is equality of the numbers, and it prints as 'n / d'. Turning it into an expression denotes the same number and reads back to it; reading an expression succeeds exactly for an integer, the inverse (power -1) of an integer, and products of these.",
  ["inputs", "histories"], "all numerators and denominators of any size and sign, chains of operations, and all flat expressions near the recognised form",
  "Tests use positive one-digit fractions, one operation at a time.",
  [R + "rational/rationals.rs"],
  [("gcd normalisation", R + "rational/rationals.rs"), ("from_expression", R + "rational/rationals.rs")],
  ["Rational::from, from_expression, expr, + - * /, ==, Display"],
  "BigRational reference model run in step with the library")

p("C18", "Symbols compute, convert and compare like their data",
  "Integer symbols add, subtract, multiply, divide (toward zero), take remainders, gcd, lcm, opposites and non-negative powers exactly in all owned and borrowed spellings, give no value for a negative power and no machine integer when theirs does not fit. Real symbols compute as f64 does, variables keep their name, and labels, values, order and equality are those of the data.",
  ["inputs", "histories"], "all integers of any size, all f64 including NaN, infinities, signed zeros and subnormals, all names",
  "Tests check 1+1, 2*2 and 4/2.",
  [S + "integer.rs", S + "real.rs", S + "variable.rs", B + "symbol.rs"],
  [("operator overloads", S + "integer.rs, " + S + "real.rs"), ("gcd, lcm, pow, opposite, is_negative, value, label", S + "integer.rs")],
  ["methods and operators of Symbol<BigInt>, Symbol<f64>, Symbol<String>"],
  "BigInt and f64 reference arithmetic, including chained histories")

p("C19", "Each public rewrite rule preserves value and does its job",
  "Applying any public expansion or simplification rule to an expression keeps its value wherever it is defined (powers: where every factor of the exponent is an integer, or the variables and the base are positive) and leaves what it does not match unchanged. The common-addend rule leaves each term once with its collected coefficient, the common-factor rule each base once with its collected exponent, the rational rules one rational constant, the denominator rule one inverse for all negative literal exponents, the distribution rules no undistributed product or power at the top, and the inverse rule no power of its own logarithm.",
  ["inputs", "programs"], "every rule and every expression the constructors, expand and simplify make",
  "Each rule has a few unit tests on fixed inputs; value preservation and completeness quantify over all of them, also where simplify() does not use the rule.",
  [R + "factoring/additive_common_addend.rs", R + "factoring/multiplicative_common_factor.rs", R + "factoring/single_algebraic_denominator.rs", R + "identities/inverse_power_log.rs", R + "rational/rationals_addition.rs", R + "rational/rationals_multiplication.rs", XR + "multiplicative_distributive.rs", XR + "power_distributive_addition.rs", XR + "power_distributive_multiplication.rs"],
  [("Rule::apply", R), ("expansion Rule::apply", XR)],
  ["<rule>::apply"],
  "value before and after at several valuations, and a per-rule result model")

p("C20", "Association and operation accessors select exactly their items",
  "items() of a sum or product is the multiset it was made of, get/get_one/map visit every item, the filters for reals, rational numerators, rational denominators, rationals, non-rationals and symbolics return exactly the items of that kind (rationals and non-rationals together are all items), and operations return the argument and modifier they were made of. No accessor modifies its object.",
  ["inputs"], "all associations of any length and content, including those produced by the constructors, expand and simplify",
  "Tests cover the filters with one short list each.",
  [B + "commutative_association.rs", B + "associative_operation.rs", B + "operation.rs"],
  [("filters", B + "commutative_association.rs")],
  ["CommutativeAssociation, AssociativeOperation and Operation methods"],
  "list model of each accessor")

p("C21", "Constructors keep expressions in normal form",
  "A sum or product coming out of the constructors, expand() or simplify() has at least two items, none of them a sum in a sum or a product in a product, no neutral or absorbing number, and at most one integer and one real constant (not counting a separated sign of -1). A power has no neutral exponent or base, no power as its base and no numeric factor in its base; integer powers of integers are folded to an integer or the inverse of one; logarithms and real powers of plain numbers are folded.",
  ["inputs", "programs"], "every expression built through the public constructors and manipulations",
  "The invariant is over every reachable value; tests look at a few results.",
  arith + [X + "power.rs", X + "logarithm.rs", M + "expand.rs", M + "simplifiable.rs"],
  [("constructors normalise on the way in", A + ", " + X)],
  ["structure of any Expression returned by the API"],
  "structural invariant checked over every node of random constructions")

p("C22", "The same work gives the same result every time",
  "Building, expanding, simplifying, comparing and printing the same expression gives identical results in every repetition and on every thread, although the hash tables inside are seeded differently each time. One value can be used from several threads at once without changing.",
  ["inputs", "schedules"], "all expressions, repeated in one process with freshly seeded hash tables, on other threads, and by several threads sharing a value",
  "Tests run each input once; dependence on hash-table order shows only in repetitions over larger sums and products.",
  [R + "factoring/additive_common_addend.rs", R + "factoring/multiplicative_common_factor.rs", M + "simplifiable.rs", M + "ordeable.rs"],
  [("items sorted on construction", B + "commutative_association.rs")],
  ["build, expand, simplify, comparisons, printing, repeated"],
  "metamorphic repetition, each run with new hash seeds, in-thread and across threads")

p("C23", "No sequence of calls panics, hangs or corrupts values",
  "Any history of API calls (constructors, operators, powers, logarithms, expand, simplify, comparisons, rules, accessors, printing, hashing, sorting) over a growing pool of values terminates without panicking, as long as nothing is divided by zero, also with infinite, NaN and extreme literals. Long chains of operations and sums and products of hundreds of items are worked off as well. Along the way each value stays equal to itself, and hashing and ordering agree on how many distinct values there are.",
  ["histories", "inputs"], "all histories of up to about thirty calls over shared values, bounded in size, excluding division by a value that is zero; nesting of up to about twenty levels and nodes of up to a few hundred items",
  "Panics and unbounded recursion hide in combinations of earlier results; tests never chain more than two or three calls.",
  arith + [X + "power.rs", X + "logarithm.rs", M + "expand.rs", M + "simplifiable.rs", M + "expression_comparison.rs"],
  [("recursive constructors and rules", "src")],
  ["the whole public API"],
  "stateful generation of call histories; crashes and hangs confirmed by replay in a separate process")

p("C24", "Variable names carry no meaning",
  "Renaming the variables of an expression one to one and then building, expanding, simplifying or comparing gives the renamed result: no name is special, and nothing beyond the alphabetical order of the names influences a result. What is built, and what an integer polynomial simplifies to, does not even depend on that order.",
  ["inputs"], "every expression and every one-to-one renaming of its variables, with any strings as names",
  "Tests use a, b, c and x; that nothing depends on which names they are is a relation between two runs.",
  [S + "variable.rs", M + "ordeable.rs", M + "expression_equality.rs", M + "simplifiable.rs", B + "commutative_association.rs"],
  [("variables ordered by name", M + "ordeable.rs"), ("names compared and hashed", S + "variable.rs")],
  ["building, expand(), simplify(), comparisons of renamed expressions"],
  "metamorphic: the computation on a renamed input must give the renamed result")

p("C25", "Equal expressions are interchangeable",
  "Two expressions that are == because they consist of equal parts, whatever the order their addends and factors were supplied in, give equal results under every operation: arithmetic with a third expression, expand, simplify, comparisons, each rewrite rule, accessors, hashing, ordering and printing. (A real 0.0 equals -0.0 and prints differently, as in f64.)",
  ["inputs", "programs"], "every expression and every way of assembling an equal one node by node, every operation and every second operand",
  "Tests compute with one object per value; dependence on how an equal value was assembled shows only between two of them.",
  [B + "commutative_association.rs", M + "expression_equality.rs", M + "ordeable.rs", M + "simplifiable.rs"],
  [("items sorted on construction", B + "commutative_association.rs"), ("structural equality", M + "expression_equality.rs")],
  ["every operation on == operands"],
  "metamorphic: every operation on a value and on an equal value assembled in another order must agree exactly")

p("C26", "Real literals compute exactly as f64 does",
  "The sum, difference, product and quotient of two real literals is the f64 result, bit for bit, for literals of any magnitude, also inside a sum or product with other items; negating is exact, and powers and logarithms of literals agree with f64 up to a few units in the last place. A quotient with a sign split off may be rounded twice. A product keeps at most one real, and a sum one besides a separated negative one.",
  ["inputs", "histories"], "all finite f64 operands whose result is finite, chains of up to twenty operations, and sums and products with other items around",
  "Tests combine 1.0, 2.0 and 4.0, for which nearly any way of computing gives the same bits.",
  arith + [X + "power.rs", X + "logarithm.rs", S + "real.rs"],
  [("folding of reals", A + "addition.rs, " + A + "multiplication.rs, " + A + "division.rs"), ("f64 operators of Symbol", S + "real.rs")],
  ["+ - * / pow log on Real expressions"],
  "differential against f64 arithmetic, exact where the constructors fold")

p("C27", "Opaque terms take part like variables",
  "A sine, a cosine or a logarithm of unrelated variables behaves in sums, products, powers, expand, simplify and comparisons exactly as a variable in its place would: replacing the variables of an integer polynomial or of a product of powers by distinct such terms gives the same result with the terms replaced, equal terms being collected and different ones kept apart.",
  ["inputs", "programs"], "every integer polynomial and every product of integer powers of variables, and every one-to-one replacement of variables by opaque terms",
  "Tests never collect like terms that are functions; the distinctions are made by hash and equality of the whole tree.",
  [R + "factoring/additive_common_addend.rs", R + "factoring/multiplicative_common_factor.rs", M + "simplifiable.rs", M + "expand.rs", M + "expression_equality.rs", B + "operation.rs", B + "associative_operation.rs"],
  [("counters keyed by expression", R + "factoring/additive_common_addend.rs"), ("exponents keyed by base", R + "factoring/multiplicative_common_factor.rs")],
  ["building, expand(), simplify(), comparisons"],
  "metamorphic: substitution of opaque terms for variables commutes with every manipulation")

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, _ in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

checks = []
for d, note in P:
    checks.append(dict(
        property=d["id"], quick_cmd="./check.sh " + d["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + d["id"],
        evidence_file="evidence/%s.json" % d["id"],
        technique="property-based testing: " + note,
        level="exploration",
        level_note="Random search over generated inputs with shrinking and replay; it can show a violation, not absence. Trusts the evaluator and reference models in harness/src (over num's BigInt/BigRational). Size limits and undecided cases are counted in the evidence and described in DESIGN.md."))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
         notes="No hooks: the checks use only the public API. Genuine defects found were repaired in /repo (see known-findings.txt).")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
