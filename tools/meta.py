#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  _t=technique, _n=note))

ORACLE = "online differential monitor against an independent executable model of the specification"
NOTE = ("Exploration: every call of the workload is judged by the model (value, exponent, sign, conditions, returned pointer, operands, "
        "representation); nothing is claimed for calls that were not executed. Trusts the model, which is cross-checked against CPython's decimal (libmpdec).")
CTXS = "all operand pairs, precisions, rounding modes, exponent limits"

prop("A01", "Addition and subtraction are correctly rounded",
     "For every pair of numbers and every context, the sum and the difference are the exact result rounded once to the context's precision in its rounding mode, with the preferred exponent, sign and conditions the General Decimal Arithmetic specification prescribes. With unlimited precision they are exact. This holds whatever the distance between the operands' exponents.",
     ["inputs", "configurations"], CTXS,
     "The suite samples some hundred vectors at a few precisions; cancellation, ties created by a distant operand, and the switch between machine-word and big-integer coefficients depend on combinations of operands and contexts it never reaches.",
     ["big_ctx.go", "big.go"], [("add", "big_ctx.go Context.Add/Sub/add"), ("rounding", "big_ctx.go Context.round/finish")], ORACLE, NOTE)
prop("A02", "Multiplication and fused multiply-add are correctly rounded",
     "For every operand and context, a product is the exact product rounded once, and a fused multiply-add is the exact x*y+u rounded once, never the sum of a rounded product. Exponent, sign, conditions and overflow and underflow behaviour are the ones the specification prescribes. Operands may be the receiver.",
     ["inputs", "configurations"], CTXS,
     "Overflow of the 64-bit fast path, double rounding and the sign of zero results need specific operands at specific precisions.",
     ["big_ctx.go", "internal/arith"], [("mul", "big_ctx.go Context.mul"), ("fma", "big_ctx.go Context.FMA"), ("128-bit product", "internal/arith/mul.go")], ORACLE, NOTE)
prop("A03", "Division is correctly rounded and exact when possible",
     "For every dividend, divisor and context, the quotient is the exact quotient rounded once in the context's rounding mode. An exactly representable quotient is returned exactly, with the exponent closest to the ideal one and without Inexact. With unlimited precision every quotient that terminates is exact and one that does not is NaN with InvalidOperation. Division by zero and of zero signal the prescribed conditions.",
     ["inputs", "configurations"], CTXS,
     "Correct rounding of a quotient depends on its remainder, which only a handful of operand pairs per precision make decisive.",
     ["big_ctx.go"], [("quo", "big_ctx.go Context.Quo/quo")], ORACLE, NOTE)
prop("A04", "Integer division and remainders satisfy x = q*y + r",
     "Integer quotients are the exact quotient truncated towards zero and remainders have the dividend's sign, a magnitude below the divisor's, and satisfy x = q*y + r, whether obtained together or separately. A quotient that does not fit the precision yields NaN with DivisionImpossible. Exponents, zeros and special operands follow the specification.",
     ["inputs", "configurations"], CTXS + ", aliasing of the two results with the operands",
     "The identity couples three operations over all operands; the boundary where the quotient stops fitting the precision moves with every pair.",
     ["big_ctx.go"], [("QuoInt/Rem/QuoRem", "big_ctx.go")], ORACLE, NOTE)
prop("A05", "Rounding, quantization and integral rounding honour mode and digits",
     "Rounding to a precision, quantizing to an exponent, rounding to an integral value, floor, ceiling and assignment through a context return the representable number the rounding mode selects, with the requested exponent. They signal Rounded and Inexact exactly when digits, or non-zero digits, were discarded, and InvalidOperation when the result cannot be represented.",
     ["inputs", "configurations"], "all numbers, target digits or exponents, all seven rounding modes and exponent limits",
     "Each rounding mode has its own carries and ties; tests pick few of the digit patterns and never all modes at the exponent limits.",
     ["big.go", "big_ctx.go", "misc/misc.go"], [("round", "big_ctx.go Context.round"), ("shift", "big.go/big_ctx.go Quantize, RoundToInt, Floor, Ceil")], ORACLE, NOTE)
prop("A06", "Reduce removes exactly the trailing zeros",
     "Reducing a number yields a numerically equal one (after rounding to the context) without trailing zeros in its coefficient, and zero with exponent zero. No significant digit is lost at any coefficient size. Special values keep their meaning.",
     ["inputs", "configurations"], "all numbers and contexts",
     "The loop that strips zeros has different code for small and big coefficients and for rounding that creates new zeros.",
     ["big_ctx.go", "misc/misc.go"], [("Reduce/simpleReduce", "big_ctx.go")], ORACLE, NOTE)
prop("A07", "NextPlus and NextMinus return the adjacent representable number",
     "NextPlus returns the smallest representable number of the context greater than its operand, NextMinus the largest smaller one, without raising conditions other than for NaNs. The ends of the range, subnormal numbers, zeros and infinities are included, and the two are mirror images.",
     ["inputs", "configurations"], "all numbers, precisions and exponent limits",
     "Adjacency is a statement about every number in between; the suite covers three fixed formats.",
     ["big_ctx.go", "misc/misc.go"], [("NextPlus/NextMinus", "big_ctx.go")], ORACLE, NOTE)
prop("A08", "Copies, signs, absolute values and predicates describe the same value",
     "Copying, negating and taking absolute values change nothing but the sign (and, for the rounding forms, the precision), never share mutable state with their source, and leave the receiver's settings alone. Every predicate and accessor (class, sign, finiteness, integrality, precision, scale, coefficient, quantum) agrees with the represented value and none modifies it.",
     ["inputs", "configurations", "histories"], "all values including signed zeros, infinities and NaNs, at all coefficient sizes, in receivers with any past",
     "Agreement of a dozen accessors on every representation (machine-word, big, formerly big) is quantified over inputs and histories.",
     ["big.go", "misc/misc.go"], [("Copy*/Is*/Class/Precision/Mantissa", "big.go")], ORACLE, NOTE)
prop("C01", "Comparison is the numeric total order",
     "Comparing two numbers returns the order of their exact values, independent of their representations, signs of zero and of how far apart their exponents are; comparison by magnitude ignores signs. It is antisymmetric and transitive, so sorting with it yields an ordered sequence, and it changes neither operand.",
     ["inputs", "histories"], "all pairs and lists of numbers, infinities included",
     "Shortcuts on signs, magnitudes and digit counts must agree with the exact order for every pair; transitivity is over triples.",
     ["big.go"], [("cmp", "big.go cmp/Cmp/CmpAbs")], ORACLE, NOTE)
prop("C02", "Total ordering follows the specification's sequence",
     "The total comparison orders -NaN < -sNaN < -Infinity < negative numbers < -0 < +0 < positive numbers < +Infinity < +sNaN < +NaN, and numerically equal numbers by exponent, with the sign deciding the direction. Its magnitude form ignores signs, and both are antisymmetric.",
     ["inputs"], "all pairs of values including NaNs, signed zeros and equal numbers of different exponent",
     "Ordering is a relation over all pairs; tests list a few.",
     ["big.go", "misc/misc.go"], [("CmpTotal", "misc/misc.go, big.go")], ORACLE, NOTE)
prop("C03", "Maximum and minimum return an extremal argument",
     "The maximum, minimum and their magnitude variants return one of their arguments, such that no other argument lies beyond it. No argument is modified.",
     ["inputs"], "all non-empty lists of numbers",
     "Extremality is over every list and every member.",
     ["big.go", "misc/misc.go"], [("Max/Min/MaxAbs/MinAbs", "big.go, misc/misc.go")], ORACLE, NOTE)
prop("F01", "Conditions are exact and sticky",
     "Every operation adds to its receiver's conditions exactly the conditions the specification prescribes for that operation and never clears or invents others. The error a number reports corresponds to its conditions and traps. Clearing conditions and errors leaves the value untouched.",
     ["inputs", "configurations", "histories"], "all operations, operands, contexts and prior conditions",
     "Stickiness is a property of histories of operations; tests start from fresh receivers.",
     ["context.go", "big.go", "big_ctx.go"], [("Conditions/Err/Traps", "context.go"), ("fix/finish", "big_ctx.go")], ORACLE, NOTE)
prop("F02", "NaNs propagate, and infinities follow the limit rules",
     "An operation on a NaN yields a quiet NaN of the prescribed operand (the first signaling, else the first NaN), and InvalidOperation exactly for signaling ones. Infinite operands give the limits the specification prescribes and undefined combinations give a quiet NaN with InvalidOperation or its sub-condition. Limits and special values that are exactly zero or one have exponent 0.",
     ["inputs", "configurations"], "all operations, all combinations of special and finite operands",
     "The cross product of operations and special operands is larger than the tests' tables, and depends on aliasing and context.",
     ["big.go", "big_ctx.go"], [("checkNaNs/setNaN", "big.go"), ("special cases", "big_ctx.go")], ORACLE, NOTE)
prop("F03", "Zeros have the prescribed sign and exponent",
     "A zero result has the sign and exponent the specification prescribes in the rounding mode in force, whether it stems from zero operands, cancellation or underflow. Zero operands behave like any number and keep their exponents.",
     ["inputs", "configurations"], "all operations, zero operands of both signs and all exponents, all contexts",
     "Signs of zeros vary by operation and rounding mode and are invisible to numeric comparisons used by tests.",
     ["big_ctx.go", "big.go"], [("add/mul/quo zero cases", "big_ctx.go"), ("setZero", "big.go")], ORACLE, NOTE)
prop("F04", "Results respect the exponent limits",
     "No result has an adjusted exponent above the context's maximum or an exponent below its smallest subnormal one. Overflow gives the infinity or largest number the rounding mode selects, underflow a correctly rounded subnormal or zero, each with the prescribed conditions.",
     ["inputs", "configurations"], "all operations, operands around the limits, all limits (the predefined interchange formats among them) and rounding modes",
     "The limits combine with rounding carries at every context; the suite covers the IEEE formats only.",
     ["big_ctx.go"], [("fix/finish/overflow", "big_ctx.go"), ("etiny", "context.go")], ORACLE, NOTE)
prop("F05", "Invalid contexts are rejected",
     "Every operation carried out under a context with an invalid precision, exponent limit or rounding mode yields a NaN with InvalidContext and leaves its operands alone; a valid context never does.",
     ["configurations", "inputs"], "all operations and all valid and invalid contexts",
     "Every operation must validate; tests check one or two.",
     ["context.go", "big.go", "big_ctx.go"], [("invalidContext", "big.go")], ORACLE, NOTE)
prop("R01", "Receivers may alias operands",
     "Every operation gives the same result, conditions and returned pointer when its receiver is one or several of its operands as when it is a distinct number. Operands that are not the receiver keep value and context.",
     ["inputs", "programs"], "all operations, all aliasing patterns, all operands and contexts",
     "Early writes to the receiver only show for the aliasing pattern, operand sizes and branch that read the operand afterwards.",
     ["big.go", "big_ctx.go"], [("aliasing", "big.go, big_ctx.go")], ORACLE, NOTE)
prop("T01", "Square roots are correctly rounded",
     "The square root of every non-negative number is the exact root rounded to the context, exact whenever the root is representable, with the specification's preferred exponent and conditions. With unlimited precision an irrational root is NaN with InvalidOperation, as is the root of a negative number.",
     ["inputs", "configurations"], "all numbers and contexts, precisions up to several thousand digits",
     "Rounding of a root is decided by digits far beyond the precision that only perfect squares and their neighbours expose.",
     ["big_ctx.go"], [("Sqrt", "big_ctx.go")], ORACLE, NOTE)
ULP = "online accuracy monitor against an independent high-precision evaluation"
ULPN = ("Exploration: each call is compared with a separate evaluation carrying at least 60 more digits: results must be within 0.55 (nearest modes) or 1.05 (directed modes) units in the last place, "
        "in range, inexact when they are, and special cases exact. Trusts the evaluator, cross-checked against mpmath.")
TW = "Series, argument reductions and stored constants lose digits for particular magnitudes, precisions and neighbourhoods; tests compare few points at few precisions."
prop("T02", "Exponentials and logarithms are accurate to the last place",
     "The exponential function and the natural and common logarithms return the exact value rounded to the context's precision with an error of at most one unit in the last place, at every precision and magnitude. Results out of range overflow or underflow; exact cases (0, 1, powers of ten) are exact, and an inexact result in range has as many digits as the precision.",
     ["inputs", "configurations"], "all finite arguments, precisions and exponent limits", TW,
     ["big_ctx.go"], [("Exp/Log/Log10", "big_ctx.go"), ("continued fractions", "math.go")], ULP, ULPN)
prop("T03", "Powers are accurate to the last place and exact when representable",
     "A power with an integer or fractional exponent is within one unit in the last place of the exact value, with the sign of the base for odd exponents, at every precision and magnitude. Integer powers that fit the precision are exact, inexact results in range have as many digits as the precision, out-of-range ones overflow or underflow, and special cases follow the specification.",
     ["inputs", "configurations"], "all bases, exponents, precisions and exponent limits", TW,
     ["big_ctx.go"], [("Pow", "big_ctx.go")], ULP, ULPN)
prop("T04", "Sine, cosine and tangent are accurate to the last place",
     "Sine, cosine and tangent are within one unit in the last place of the exact value for every argument, including arguments next to multiples of pi/2 and large ones the function accepts, with the right sign in every quadrant.",
     ["inputs", "configurations"], "all arguments below 1e19, precisions and contexts", TW,
     ["big_ctx.go"], [("Sin/Cos/Tan", "big_ctx.go")], ULP, ULPN)
prop("T05", "Inverse trigonometric functions are accurate to the last place",
     "Arc sine, arc cosine, arc tangent and its two-argument form are within one unit in the last place of the exact value on their whole domain, including next to its ends, in the right quadrant. Arguments outside the domain give NaN with InvalidOperation.",
     ["inputs", "configurations"], "all arguments, precisions and contexts", TW,
     ["big_ctx.go"], [("Asin/Acos/Atan/Atan2", "big_ctx.go")], ULP, ULPN)
prop("T06", "Hypotenuse, pi and e are right at every precision",
     "The hypotenuse is within one unit in the last place (right-angled integer triangles exactly so when representable) without spurious overflow or underflow. Pi and e are correctly rounded at every precision and in every rounding mode.",
     ["inputs", "configurations"], "all operand pairs, precisions 1 to 6000, all rounding modes", TW,
     ["big_ctx.go", "const.go"], [("Hypot/Pi/E", "big_ctx.go"), ("stored constants", "const.go")], ULP, ULPN)

exec(open(os.path.join(root, "tools", "meta2.py")).read()) if os.path.exists(os.path.join(root, "tools", "meta2.py")) else None

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
NA = globals().get("NA", [])
man = dict(version=1, setup_cmd="bash ./setup.sh",
           hooks=dict(guard="verif", enable="go build -tags verif (check.sh does)", source_commits=globals().get("HOOKS", [])),
           checks=[dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
                        technique=p["_t"], level="exploration", level_note=p["_n"]) for p in P],
           not_applicable=NA,
           notes="Every check builds /verif/harness against /repo's working tree, runs it in a supervised child process and writes evidence/<id>.json. See DESIGN.md.")
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
print(len(P), "properties")
