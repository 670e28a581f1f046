#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
D = "doctor-syn/src/"
T = D + "transformation/"
p("C01", "Expanding an expression never changes its value",
  "For every expression that expanding accepts, the result has the same value as the input for every value of its variables, with + - * and unary minus read as real arithmetic and every other operator, method and field read as an arbitrary function of its operands. The text of the result, parsed again, is the result: printing loses no grouping. Sums, differences, products, negations and parentheses of any depth are accepted.",
  ["inputs"], "all expressions (any size and nesting) over literals, paths, parentheses, fields, unary and binary operators and method calls, and all values of their variables",
  "The tests expand about a dozen fixed texts and compare strings; the guarantee is over all trees, where nesting of negation, subtraction and parentheses matters.",
  [T + "expand.rs", D + "visitor.rs", T + "tools.rs"], [("visit_binary/visit_unary", T + "expand.rs"), ("make_binary/make_unary/parenthesise_op", T + "tools.rs"), ("default traversal", D + "visitor.rs")], ["Expression::expand", "printing the result"])
p("C02", "Expanding reaches a flat sum of products",
  "The expansion of a sum, product or negation is a left-leaning chain of + and - whose terms contain no sum or difference outside of a function call, a field or another operator. No product of sums is left undistributed, at any depth of parentheses and negation.",
  ["inputs"], "all expressions over literals, paths, parentheses, fields, unary and binary operators and method calls",
  "The tests compare a few results; which shapes remain undistributed depends on how deep parentheses, negations and products are nested.",
  [T + "expand.rs", D + "visitor.rs"], [("add_to_terms/distribution in visit_binary", T + "expand.rs"), ("sum of the collected terms", T + "expand.rs")], ["Expression::expand"])
p("C03", "Substitution replaces exactly the named variables",
  "Substituting a list of variables in an expression gives an expression whose value is that of the original with each listed variable bound to the value of its first entry in the list, all at once, and with no other variable changed; a listed value is kept together when the result is printed. An expression that contains a construct substitution does not handle is an error, never silently left as it is.",
  ["inputs"], "all expressions, all lists of variables (any length, with duplicates) and all values substituted",
  "The tests substitute one or two variables in fixed texts; precedence accidents depend on which operator the value is put under, and first-match depends on duplicates.",
  [T + "subst.rs", D + "variablelist.rs", D + "name.rs", T + "tools.rs", D + "visitor.rs"], [("Subst::visit_path", T + "subst.rs"), ("VariableList::find/add_var", D + "variablelist.rs"), ("parenthesise_op", T + "tools.rs")], ["Expression::subst", "VariableList::find"],
  [("vars", "name/value pairs in order of entry", D + "variablelist.rs")])
p("C04", "Parenthesising makes grouping explicit and changes nothing else",
  "The parenthesised form of an expression has the same value as the expression; every operand of an operator that is itself an operator application is in parentheses; and nothing is written to the standard output or anywhere else. Parsing the text of the result gives the result.",
  ["inputs"], "all expressions over literals, paths, parentheses, fields, unary and binary operators and method calls",
  "The tests print three fixed expressions; which operands lack parentheses depends on the shape.",
  [T + "paren.rs", D + "visitor.rs", T + "tools.rs"], [("Paren::visit_binary/visit_unary", T + "paren.rs"), ("make_paren/parenthesise_op", T + "tools.rs")], ["Expression::paren"])
p("C05", "Traversals rebuild what they do not transform, and reject what they cannot",
  "A traversal that transforms nothing gives back an identical expression: same operators, order of operands, method names, type arguments, number of arguments and literals. An expression that contains, anywhere, a construct the traversal does not support gives an error and no result.",
  ["inputs"], "all expressions, supported and unsupported, at any depth",
  "The tests never check that the untransformed parts are the same; a swapped operand or a dropped argument shows only on particular constructs.",
  [D + "visitor.rs", T + "collect.rs", T + "tools.rs"], [("Visitor default methods", D + "visitor.rs"), ("Collect", T + "collect.rs")], ["Expression::collect_terms", "Expression::subst with no variables"])
p("C06", "Operators on expressions build what they say",
  "Adding, subtracting, multiplying or dividing expressions gives an expression whose value is that arithmetic on the values of the operands, in that order, whatever operators the operands contain; its text means the same. Where both operands are numeric literals the result is the exact number (a quotient: correct to at least 90 digits). Dividing by the number zero is outside of this.",
  ["inputs"], "all pairs of expressions, numeric and symbolic, and the four operators",
  "The tests combine a few pairs; grouping errors need operands with operators of their own, and numeric errors particular numbers.",
  [D + "expression.rs"], [("make_op!", D + "expression.rs"), ("Add, Sub, Mul, Div for Expression", D + "expression.rs"), ("is_numeric/try_into", D + "expression.rs")], ["+ - * / on Expression"])
p("C07", "Evaluation follows the real-number meaning and never panics",
  "Evaluating an expression gives the number that each operator and function gives on the values of its operands: sums, differences and negations exactly, products and quotients rounded to the requested number of digits (quotients: at most 99 significant digits), functions by name to about the requested digits, comparisons as true or false. An expression with a free variable, an unknown function, a wrong number of arguments, an unsupported construct, an operand that is not a number or no value (division by zero, a logarithm of a negative number) gives an error, never a panic and never a number. Exponentials and powers above e^100000, powers by numbers above 10^198 and sines of angles above 10^50 count as having no value; numbers of millions of digits are outside of this.",
  ["inputs"], "all expressions and all numbers of digits from 0 to 10000",
  "The tests evaluate single fixed calls; errors and wrong operators appear only on particular expressions.",
  [T + "eval.rs", D + "bdmath.rs", D + "expression.rs"], [("Eval dispatch", T + "eval.rs"), ("arithmetic in visit_binary/visit_unary", T + "eval.rs")], ["Expression::eval"])
p("C08", "Rounding to d digits gives a nearest d-digit decimal",
  "Rounding a decimal to d fractional digits gives a number with at most d fractional digits within half a unit of the d-th digit of the input, ties away from zero, for positive and negative numbers of any magnitude. A number that already has at most d fractional digits is unchanged, and so is every number for a negative d.",
  ["inputs"], "all decimals (any digits and scale) and all d",
  "The tests round a handful of numbers; signs, carries and scales form an unbounded space.",
  [D + "bdmath.rs"], [("round", D + "bdmath.rs")], ["every numeric result of eval"])
p("C09", "Elementary functions are accurate to the requested digits",
  "For every argument in its domain and every number of digits from 1 to 80, exp, ln, log, pow, sin, cos, tan, asin, acos, atan, sqrt, erf, erfc, dnorm, pnorm and pi (and exp2, log2, log10 and powi made from them) give a decimal within one unit of the last requested digit of the true real value y, where a unit is 10^-digits times max(1, |y|); for a tangent it is also multiplied by 1 + y^2, for a logarithm to base b by (1 + |y|) / |ln b|, for the density by 1 + 1/|sd|. Arguments for which a cosine, the logarithm of a base or a standard deviation is zero to the requested digits are outside. The calculation ends without a panic; outside of the domain there is no value.",
  ["inputs"], "all decimal arguments in the domain (angles up to 1e50, exponents up to 100000), all numbers of digits up to what the constants have",
  "The tests compare with fixed values at about ten points for each function and three numbers of digits; accuracy depends on the argument (range reduction, cancellation, length of the series, when the sum stops changing).",
  [D + "bdmath.rs", T + "eval.rs"], [("maclaurin and the series", D + "bdmath.rs"), ("range reduction", D + "bdmath.rs")], ["Expression::eval of function calls"])
p("C10", "The interpolating polynomial passes through all given points",
  "For every non-empty list of points with different abscissae, the polynomial made from it takes the given value at each of the points, and its degree is less than the number of points. Values agree up to the accumulated rounding to the requested digits; evaluating the polynomial is exact.",
  ["inputs"], "all lists of distinct points of any length",
  "The tests interpolate two fixed lists; index errors in the divided differences appear at particular lengths.",
  [D + "polynomial.rs"], [("Polynomial::from_points (divided differences)", D + "polynomial.rs")], ["Polynomial::from_points", "Polynomial::eval"])
p("C11", "Approximation yields a Horner form of the fitted polynomial",
  "For every expression, every number of terms n >= 2 and every finite interval with different ends, approximating the expression samples it at the n points mid - half * cos(i * pi / (n - 1)) of the interval (both ends included) and gives a chain of mul_add steps in the variable, without any other operation than the one final product of an odd approximation. The value of the chain is the value of the polynomial of degree below n that takes the value of the expression at each of the points, up to the rounding to the requested digits. With an odd (even) parity exactly the odd (even) powers of that polynomial are kept. Fewer than two terms, a number of terms that does not suit the parity, an interval without length or with an infinite end, and a point where the expression has no value give an error, never a wrong polynomial.",
  ["inputs"], "all expressions, intervals, term counts, parities and numbers of digits",
  "The tests check two or three fixed calls as strings.",
  [T + "approx.rs", D + "polynomial.rs"], [("approx", T + "approx.rs"), ("mul_add_polynomial", T + "approx.rs"), ("Polynomial::from_points", D + "polynomial.rs")], ["Expression::approx"])
p("C12", "Converting literals to a float width picks the nearest float",
  "For every expression, use_number_type with \"decimal\" and 32 or 64 replaces every number literal by a literal with the suffix f32 or f64 that reads as the float of that width nearest to the original literal (ties to even); with \"hex\" and 32 or 64 by the call f32::from_bits or f64::from_bits with the bits of that nearest float. A literal beyond the range of the width is an error, never an infinity. Nothing else in the expression changes, and any other type or width leaves the expression as it is.",
  ["inputs"], "all expressions and all number literals",
  "The tests convert three literals; rounding errors depend on the digits.",
  [T + "use_number_type.rs"], [("UseNumberType::visit_lit", T + "use_number_type.rs"), ("Visitor", D + "visitor.rs")], ["Expression::use_number_type"])
p("C13", "Numbers survive conversion to and from expressions",
  "Turning any finite f32, any finite f64 or any decimal into an expression and reading it back as the same type gives the same number exactly (the sign of zero aside), negative numbers and extreme exponents included. Reading a number literal of any form as a decimal gives exactly the number it stands for, and as f32 or f64 the float nearest to it; reading any other expression is an error.",
  ["inputs"], "all finite floats, all decimals, all literals",
  "The tests convert a few small numbers; bits are lost only for particular magnitudes.",
  [D + "expression.rs", D + "bdmath.rs"], [("From<f64/f32/BigDecimal> for Expression", D + "expression.rs"), ("TryFrom<Expression>", D + "expression.rs"), ("expr_to", D + "expression.rs"), ("bigdf/bigdf32", D + "bdmath.rs")], ["Expression::from", "try_into"])
p("C14", "Generated Rust text is the program it was generated from",
  "Formatting a token stream as Rust text and parsing the text gives the same tokens (delimiters that have no text aside): no token is lost, repeated, moved, split or joined with its neighbour, at any nesting depth.",
  ["programs"], "all token streams",
  "The tests format two fixed streams; gluing depends on the pair of neighbouring tokens.",
  [D + "codegen/rust.rs"], [("format token streams", D + "codegen/rust.rs")], ["text written for a generated library"])
p("C15", "Generated C text means what the Rust source means",
  "For every function in the supported subset, the C text generated from it computes the same result as the Rust function for all arguments: same operators, grouping, order of operands, literal values and types. A construct outside of the subset gives an error, never different C.",
  ["programs", "inputs"], "all functions in the supported Rust subset and all arguments",
  "The tests compile one fixed library; precedence and literal differences between C and Rust appear on particular operator pairs.",
  [D + "codegen/c.rs"], [("AsC implementations", D + "codegen/c.rs")], ["C text written for a generated library"])
p("C16", "A generated library contains everything its functions need",
  "Selecting any set of functions for generation yields exactly those functions with everything they depend on, directly or not, that is not excluded: each once, in the order of the table, which has everything before what depends on it. The selection ends for every table. An unknown name gives a diagnostic outside of the library text and changes nothing else.",
  ["configurations"], "all selections and exclusions, and all dependency tables",
  "The tests generate one fixed configuration.",
  ["libmgen/src/main.rs", "libmgen/src/functions.rs"], [("dependency closure", "libmgen/src/functions.rs"), ("dependency table", "libmgen/src/functions.rs"), ("writing of the selection", "libmgen/src/main.rs")], ["the generated library"])
p("C17", "Every selection of functions gives a Rust library that compiles",
  "For each float width (32, 64), each number type (decimal, hex) and every selection of functions on offer, the Rust library text compiles: it parses, every name used in it is defined in it, no name is defined twice, the types agree, and nothing but library text is in it. A function that has a generator is defined in it.",
  ["configurations"], "all functions, float widths and languages offered",
  "The tests generate only whole libraries in the default configuration.",
  ["libmgen/src/main.rs", "libmgen/src/functions.rs", "libmgen/src/auxfuncs.rs"], [("function table", "libmgen/src/functions.rs"), ("auxiliary functions", "libmgen/src/auxfuncs.rs")], ["the generated library"])
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
