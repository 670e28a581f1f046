"""What each check runs. Also the source of MANIFEST.json (tools/manifest.py)."""
SYN = ["syn's parse trees: the data types of units/syn_prelude.rs mirror syn 1.0 (compared by the harness, which runs the real crate)",
       "Clone of a syn value gives an equal value; spans carry no meaning",
       "quote/parse_quote read as building the same tree with the interpolated parts in place (W-rule 'quoted')"]
VAL = ["operators other than + - * / and unary minus, methods, fields, paths and literals are uninterpreted functions of their operands", "+ - * / are real-number operations (floating-point rounding is outside of the property)"]
PRINT = ["the printing relation `faithful` (units/ast_spec.rs, ast_print.rs) encodes Rust's operator precedence; that syn parses printed text by it is tested by the companion, not proved"]
BD = ["bigdecimal 0.2.2 and num-bigint 0.3.3: contracts of units/bd_prelude.rs (exact + - *, with_scale truncates, comparison by value, division to 99 significant digits); the companion runs the real crate"]
VISIT = ["recursion depth: the verifier proves termination, stack size is not modelled"]
NOSHAPE = ["where the sources no longer have a form the extraction covers, the verdict of that run is the bounded companion's and the evidence says so"]

PROPS = {
 "C01": dict(units=["expand"], companions=[("harness", "expand_value")], trusted=SYN, assumptions=VAL + PRINT + VISIT + NOSHAPE,
   technique="contracts on the extracted real functions, discharged by Verus (real-valued semantics of expressions)",
   note="Proof for all expressions that expand keeps the value (sum of terms as an invariant of the loops) and that the result prints as itself. Trusts the mirrored syn data types and the precedence relation; a bounded run on the real crate looks for failing inputs."),
 "C02": dict(units=["expand"], companions=[("harness", "expand_normal")], trusted=SYN, assumptions=VISIT + NOSHAPE,
   technique="contracts on the extracted real functions, discharged by Verus (distributed form as postcondition)",
   note="Proof for all expressions that the result is a flat sum of terms without sums. Trusts the mirrored syn data types."),
 "C03": dict(units=["subst"], companions=[("harness", "subst")], trusted=SYN, assumptions=VAL + PRINT + VISIT + NOSHAPE + ["path equality of syn (PartialEq on Path) is structural equality"],
   technique="contracts on the extracted real functions, discharged by Verus (simultaneous substitution, first match)",
   note="Proof for all expressions, lists and values that the value is that of the simultaneous substitution with the first entry of each name, and that unsupported constructs are errors."),
 "C04": dict(units=["paren"], companions=[("harness", "paren")], trusted=SYN, assumptions=VAL + PRINT + VISIT + NOSHAPE + ["writing elsewhere than by println!/print!/eprintln!/eprint!/dbg! (each has to be proved unreachable) needs a call that has no contract, which the verifier does not accept"],
   technique="contracts on the extracted real functions, discharged by Verus",
   note="Proof for all expressions that value and printing are kept and operator operands are in parentheses."),
 "C05": dict(units=["collect", "subst"], companions=[("harness", "traverse")], trusted=SYN, assumptions=VISIT + NOSHAPE,
   technique="contracts on the extracted real functions, discharged by Verus (identity up to spans; error iff unsupported)",
   note="Proof for all expressions that the default traversal rebuilds the same expression, and errs exactly on unsupported constructs."),
 "C06": dict(units=["ops"], companions=[("harness", "ops")], trusted=SYN + BD, assumptions=VAL + PRINT + NOSHAPE + ["reading the digits of a number literal and writing a decimal as a literal are exact (contracts of units/numlit.inc; C13)", "operands that are calls, casts, blocks and the like: companion only"],
   technique="contracts on the extracted real functions (macro bodies included), discharged by Verus",
   note="Proof for all operands built from the supported constructs; numbers: exact, with the quotient to 90 digits. A zero divisor and literals out of range of a decimal are outside."),
 "C08": dict(units=["round"], companions=[("harness", "round")], trusted=BD, assumptions=NOSHAPE,
   technique="contract on the extracted real function, discharged by Verus (integer and scale of the result)",
   note="Proof for all decimals and all numbers of digits. Trusts the contracts of BigDecimal's addition, with_scale and constructors."),
 "C07": dict(units=["eval"], companions=[("harness", "eval")], trusted=SYN + BD + ["contracts of the elementary functions of bdmath.rs (units/bdfun.inc): when they have no value is assumed here; what they give is C09"], assumptions=VISIT + NOSHAPE + ["reading the digits of a number literal and writing a decimal as a literal are exact (contracts of units/numlit.inc; C13)", "memory and time: numbers of millions of digits are outside"],
   technique="contracts on the extracted real functions, discharged by Verus (evaluation relation, error iff no value)",
   note="Proof for all expressions that eval gives a value in the evaluation relation or fails exactly where there is none, without panics (indexing, unwrap and preconditions of the functions are obligations). Trusts the contracts of the elementary functions."),
 "C09": dict(units=["elem"], companions=[("harness", "elem")], trusted=BD + ["facts of analysis about the real functions, stated as axioms in units/realfn.inc and elem_*.inc: e^(x+y) = e^x e^y, 1+x <= e^x, 2.718 <= e <= 2.719, Taylor's theorem with remainder for exp, sin, cos, atan, asin, ln; period, slope and Pythagoras of sin and cos; the half-angle formula and slope of atan; asin by atan; 153 digits of pi; ln as the inverse of exp; the square root as the root that is not negative", "BigDecimal::sqrt is within a relative 1e-97 of the root (bigdecimal 0.2.2; the companion runs it)", "the decimals of half() and bigdf(0.5)"], assumptions=NOSHAPE + ["reach: 1 to 92 digits (exp to 119000, ln to 5000, pow to 4700), angles to 1e50, exponents to 100000, scales of a million digits", "what eval passes to these functions is decided under C07"], bounded=["erf, erfc, pnorm and the forms made from them: companion only (cases counted in companions)", "log2, log10, exp2, powi as called by eval: companion, on top of C07"],
   technique="contracts on the extracted real functions, discharged by Verus (error bounds over the reals: rounding, series, argument reduction), facts of analysis as axioms",
   note="Proof for all arguments and digits in reach that exp, ln, log, pow, sin, cos, tan, asin, acos, atan, sqrt, dnorm and pi are within fractions of a unit of the last digit of the real value, end, and do not panic. erf, erfc and pnorm: bounded."),
 "C10": dict(units=["poly"], companions=[("harness", "poly")], trusted=BD, assumptions=NOSHAPE + ["the bound on the loss is stated in terms of the largest divided difference of the run (a ghost table) and the largest abscissa"],
   technique="contracts on the extracted real functions, discharged by Verus (ghost table of divided differences, Newton's form, rounding bound)",
   note="Proof for all non-empty lists of points with different abscissae and all numbers of digits: the terms take each given value up to an explicit bound made of the half units lost in each rounding, and evaluation is exact. Trusts BigDecimal's arithmetic."),
 "C11": dict(units=["approx"], companions=[("harness", "approx")], trusted=BD + ["the elementary functions pi and cos and their ranges", "substitution and evaluation through relations (decided under C03 and C07)", "the decimal of a float (C13)", "quote!(mul_add(..)) and the repetition #( .#list )* build the chain of calls they show"], assumptions=NOSHAPE + ["0 <= pi <= 4"],
   technique="contracts on the extracted real functions, discharged by Verus (ghost sequences of points, samples and cosines; Horner's scheme; the interpolation contract of C10)",
   note="Proof for all expressions, intervals, term counts, parities and digits that what approx gives is the Horner form of the polynomial through the samples at exactly those points, with the loss bounded as in C10, and that an error is one of the listed ones."),
 "C12": dict(units=["usenum"], companions=[("harness", "number_type")], trusted=SYN + ["std's FromStr for f32 and f64 gives the nearest float, an infinity beyond the range", "to_bits, is_infinite of std", "quote of a finite float gives a literal with its suffix that reads back as it (proc-macro2)"], assumptions=VISIT + NOSHAPE,
   technique="contracts on the extracted real functions, discharged by Verus (relation between the trees, literal by literal)",
   note="Proof for all expressions, types and widths that exactly the number literals are replaced by what std's nearest-float reading gives, and that an error is raised exactly for unsupported constructs and literals out of range. The companion checks nearest by exact arithmetic."),
 "C13": dict(units=["conv"], companions=[("harness", "convert")], trusted=["syn's base10_parse hands the digits of a literal to FromStr", "std's FromStr for f32 and f64 gives the nearest float; format! of a float gives a decimal that reads back as it", "BigDecimal's FromStr and Display are exact", "two floats nearest to the same number are the same, the sign of zero aside"], assumptions=NOSHAPE,
   technique="contracts on the extracted real functions, discharged by Verus (round trips composed from the contracts)",
   note="Proof for all finite floats, all decimals and all literals that the conversions compose to the identity, from the contracts of std's and BigDecimal's reading and printing. The companion checks nearest by exact arithmetic."),
 "C14": dict(units=["rusttext"], companions=[("harness", "rust_text")], trusted=["proc_macro2 0/1: to_string of a token tree is text that reads as that tree, and as its character for punctuation", "a Rust lexer reads tokens with white space between as those tokens, and needs none after a delimiter or between the characters of one operator"], assumptions=NOSHAPE + ["nesting of fewer than 2^30 blocks", "delimiters without text (Delimiter::None) do not survive; what they group is outside", "two characters that do not start a comment when written as one operator"],
   technique="contracts on the extracted real functions, discharged by Verus (the text is the tokens in order with the white space that keeps them apart)",
   note="Proof for all token streams and depths that every token is written once, in order, inside its delimiters, followed by white space unless its end is unmistakable, and that the characters of one operator touch. Trusts the text proc_macro2 gives for single tokens and bracketed groups."),
 "C16": dict(units=["select"], libmgen=True, companions=[("harness", "select")], trusted=["texts are equal when their characters are", "Vec's contains and pop, String's clone and a slice's iteration of std; a stable sort by keys gives the same elements in the order of their keys", "elements of a slice have rising addresses", "the table read from the sources is the table of the program (names and deps fields, read mechanically on every run)"], assumptions=NOSHAPE + ["main writes the text of the selected entries one after the other (the companion compares)", "messages are outside the contracts (the companion looks for them)"],
   technique="contracts on the extracted real function and the extracted real table, discharged by Verus (worklist invariant; the table's facts by evaluation)",
   note="Proof for all selections, exclusions and tables that exactly the reachable entries that are not excluded are selected, once each, in table order, and that the search ends; for the table of the sources that every dependency exists and stands before what depends on it."),
 "C17": dict(units=["select"], libmgen=True, facts=True, companions=[("harness", "compile")], trusted=["syn's reading of the generated text (names defined and used by each entry, measured on the built program for every entry, width and number type)", "the trusted parts of C16"], assumptions=NOSHAPE + ["what an entry writes does not depend on what else is selected (the companion compares in C16)", "types: each entry's text is checked by rustc with what it needs, exhaustively over entries, widths and number types; a larger selection gives every name the same definition (proved: no name is defined twice)"], bounded=["agreement of types: rustc on all 75 single selections in 4 configurations (exhaustive), and on random selections"],
   technique="contracts on the extracted real function, discharged by Verus, over facts measured on the built program for every entry and configuration (evaluated by Verus); rustc for types",
   note="Proof for all selections that every name used in the text is defined in it, and none twice. That each single function compiles, in every configuration, is checked exhaustively with rustc. Rust output only."),
}
NOT_APPLICABLE = {
 "C15": "not built yet",
}
