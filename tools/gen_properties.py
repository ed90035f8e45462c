#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the JSON stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, text, why, files, mech, observe, state=None, over=("inputs",), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})

V="src/var.rs"; N="src/num.rs"; B="src/binary.rs"; D="src/data.rs"; PA="src/parse.rs"; C="src/convert.rs"; T="src/typmod.rs"; O="src/ops.rs"

prop("C01", "Addition and subtraction are exact",
 "For any two non-NaN numerics, checked addition and subtraction return exactly the mathematical sum or difference, with a scale equal to the larger of the two input scales. They return None if and only if that exact result does not fit the numeric format. If either operand is NaN the result is NaN.",
 "all pairs of valid numerics: any sign, up to 131072 digits before and 16383 after the decimal point, any alignment of the two operands",
 "The tests sample a few dozen operand pairs; carry and borrow chains, operand alignment (gap, overlap, nesting) and cancellation to fewer digits depend on digit contents and relative weights that cannot be enumerated.",
 [V,N],[("digit-wise add with carry",V+" NumericVar::add_abs"),("digit-wise subtract with borrow",V+" NumericVar::sub_abs"),("sign case split",V+" NumericVar::add_common / sub_common"),("public entry",N+" Numeric::checked_add / checked_sub")],
 ["Numeric::checked_add","Numeric::checked_sub"],
 [{"name":"digits","meaning":"base-10000 big-endian mantissa; weight is the exponent of the first digit","where":V+" NumericVar"}])

prop("C02", "Multiplication is exact",
 "For any two non-NaN numerics, checked multiplication returns exactly the mathematical product, with a scale equal to the sum of the input scales. It returns None if and only if that product or scale does not fit the numeric format. If either operand is NaN the result is NaN.",
 "all pairs of valid numerics of any length, including digit patterns that drive the accumulator to its overflow threshold",
 "Delayed carry normalisation only triggers after many large digits; the tests use short operands and cannot cover every accumulator history.",
 [V,N],[("schoolbook product with deferred carries",V+" NumericVar::mul_common"),("public entry",N+" Numeric::checked_mul")],["Numeric::checked_mul"],
 [{"name":"dig / max_dig","meaning":"accumulator cells and the proven bound on them","where":V+" mul_common"}])

prop("C03", "Division is correctly rounded at the documented scale",
 "For non-NaN numerics with a non-zero divisor, checked division returns the quotient rounded half away from zero at the selected result scale, which is the largest of both input scales and the scale PostgreSQL derives from the operands' leading digits (never fewer than 16 significant digits), capped at 1000. It returns None if and only if the divisor is zero or the rounded quotient does not fit the format; NaN operands give NaN.",
 "all pairs of valid numerics, including divisors that force quotient-digit correction and add-back",
 "The quotient-digit estimate is off by one only for rare digit patterns (about 3 in 10000 estimates) and add-back needs specific operands; tests sample a handful of quotients.",
 [V,N],[("Knuth algorithm D",V+" NumericVar::div_common"),("scale selection",V+" NumericVar::select_div_scale"),("public entry",N+" Numeric::checked_div / overflowing_div")],["Numeric::checked_div","Div operators"],
 [{"name":"dividend/divisor workspace","meaning":"remaining dividend after each quotient digit","where":V+" div_common"}])

prop("C04", "Truncated division and remainder satisfy the division identity",
 "For non-NaN numerics a and b with b non-zero, truncating division returns the integer quotient rounded toward zero, and the remainder equals a - trunc(a/b)*b exactly, has magnitude less than |b|, and is zero or has the sign of a. Both return None when b is zero, and NaN when an operand is NaN.",
 "all pairs of valid numerics with a non-zero divisor",
 "The identity composes division, multiplication and subtraction over unbounded digit strings; tests check a few tabulated remainders.",
 [V,N],[("truncating division",V+" NumericVar::div_common (round=false)"),("remainder",V+" NumericVar::mod_common"),("public entry",N+" Numeric::checked_div_trunc / checked_rem / overflowing_rem")],["Numeric::checked_div_trunc","Numeric::checked_rem","Rem operators"])

prop("C05", "Rounding, truncation, ceiling and floor are exact",
 "Rounding a finite numeric to a scale s (clamped to -1000..1000) gives the multiple of 10^-s nearest to it, ties away from zero; truncation gives the nearest such multiple toward zero; both results report scale max(s,0). Ceiling and floor give the least integer not below and the greatest integer not above the value. NaN maps to NaN.",
 "all valid numerics and all i32 scales, including negative scales and carries that lengthen the number",
 "The rounding position falls inside or between base-10000 digits and carries may ripple through any number of nines into a new leading digit; tests cover a few literal values.",
 [V,N],[("round with carry propagation",V+" NumericVar::round_common"),("truncate",V+" NumericVar::trunc_common"),("ceil/floor",V+" ceil_common / floor_common"),("public entry",N+" Numeric::round / trunc / ceil / floor")],["Numeric::round","Numeric::trunc","Numeric::ceil","Numeric::floor"])

prop("C06", "Comparison is the numeric total order with NaN greatest",
 "Comparison of two non-NaN numerics agrees with comparison of their mathematical values, regardless of scale. NaN compares equal to itself and greater than every other numeric. Equality and every ordering operator between owned and borrowed forms agree with this order.",
 "all pairs of valid numerics in all owned/borrowed operand combinations",
 "Comparison walks digit strings of different lengths and weights; transitivity and antisymmetry range over pairs and triples that tests only sample.",
 [V,N,O],[("magnitude comparison",V+" NumericVar::cmp_abs"),("signed comparison",V+" NumericVar::cmp_common"),("NaN ordering",N+" Numeric::cmp"),("trait impls",O+" PartialEq/Eq/PartialOrd/Ord impls")],["PartialEq/PartialOrd/Ord impls of Numeric and NumericBuf"])

prop("C07", "Hashing is coherent with equality",
 "Any two numerics that compare equal feed exactly the same sequence of writes to a hasher, whether owned or borrowed and whatever their scales. Hashing never fails or panics.",
 "all pairs of equal numerics (equal values with different scales, owned vs borrowed, NaN)",
 "Coherence quantifies over pairs of representations of one value; the tests never hash two differently-scaled equal numerics exhaustively.",
 [N],[("hash skips scale and leading/trailing zeros",N+" Numeric::hash"),("owned form delegates",N+" impl Hash for NumericBuf / Numeric")],["Hash impls"])

prop("C08", "Parsing accepts exactly the numeric grammar and keeps value and scale",
 "Parsing a string succeeds exactly when, after trimming ASCII whitespace on both sides, it is NaN (any case) or an optionally signed decimal number with at least one digit, an optional fraction and an optional exponent, and the value fits the format. On success the result is exactly the denoted value with scale max(fraction digits - exponent, 0). Otherwise the error says empty, invalid or overflow as appropriate, and parsing never panics.",
 "all input strings (arbitrary UTF-8), any number of digits, any exponent",
 "The input space is all strings; grouping decimal digits into base-10000 digits depends on the position of the point and the exponent modulo 4, and on exponent/weight limits, which tests only spot-check.",
 [PA],[("lexer",PA+" parse_decimal, eat_digits, eat_whitespaces, extract_sign, extract_nan, extract_exponent"),("digit grouping",PA+" parse_str, read_numeric_digit"),("entry",PA+" from_str")],["NumericBuf::from_str"])

prop("C09", "Display is exact and parses back to the same value and scale",
 "Displaying a finite numeric prints its exact decimal expansion: a minus sign iff negative, no superfluous leading zeros, and exactly as many fractional digits as its scale; NaN prints as NaN. Parsing the printed text gives back an equal numeric with the same scale. The normalized text is that expansion without trailing fractional zeros or a trailing point, so it is equal for two numerics exactly when they compare equal.",
 "all valid numerics, all weights and scales",
 "The printed text depends on every digit, the weight and the scale modulo 4; tests compare a few literal strings.",
 [V,N,PA],[("decimal printer",V+" NumericVar::write"),("normalizer",V+" NumericVar::normalize"),("Display impls",N+" Display for Numeric / NumericBuf")],["Display","Numeric::normalize","NumericBuf::from_str"])

prop("C10", "Conversion from integers is exact",
 "Converting any value of any primitive integer type (8 to 128 bits, signed, unsigned and pointer-sized) or bool to a numeric gives exactly that integer, with scale 0.",
 "all 2^8 .. 2^128 values of each of the twelve integer types and bool",
 "The 128-bit domain cannot be enumerated; minimum values, digit-group boundaries and interior zero groups are only sampled by the tests.",
 [C],[("digit extraction",C+" unsigned_to_var, Unsigned::next_digit"),("absolute value without overflow",C+" Signed::abs"),("entry",C+" From<$t> for NumericBuf")],["From<integer> for NumericBuf"])

prop("C11", "Conversion to integers rounds half away from zero or reports range",
 "Converting a finite numeric to a primitive integer type gives the integer nearest its value, ties away from zero, if and only if that integer fits the type; otherwise it reports an overflow error. NaN reports an invalid-value error; no conversion panics or wraps.",
 "all valid numerics and all twelve integer types, including values within one of each type's bounds",
 "Overflow detection must be right at every partial accumulation and at both type bounds for values of any length and scale; tests sample bounds of some types.",
 [C,V],[("negative accumulation with overflow checks",C+" into_signed"),("unsigned accumulation",C+" into_unsigned"),("narrow types via wider ones",C+" TryFrom for i8/u8/isize/usize")],["TryFrom<NumericBuf / &NumericBuf / &Numeric> for integers"])

prop("C12", "The byte form is PostgreSQL's on-disk format and reads back identically",
 "The byte form of every produced numeric is PostgreSQL's on-disk layout: a length word covering the whole value, then the short header exactly when the scale is at most 63 and the weight is in -64..63 (else the long header), then the base-10000 digits most significant first. Re-reading those bytes yields the same sign, value and scale. NaN is the 6-byte NaN header.",
 "all valid numerics: every sign, weight -32767..32767, scale 0..16383",
 "Header packing mixes sign, scale and weight bits at limits; only a few weights/scales are tested, and the short/long switch happens at exact boundary pairs.",
 [B,D,N],[("header packing",B+" NumericShort::set_header / NumericLong::set_header / can_be_short"),("header decoding",B+" NumericChoice getters, NumericBinary::as_var"),("header placement",D+" NumericData::set_header"),("bytes",N+" NumericBuf::as_bytes, Numeric::from_bytes_unchecked")],["NumericBuf::as_bytes","Numeric::from_bytes_unchecked"])

prop("C13", "Every produced numeric is canonical",
 "Every numeric returned by parsing, integer conversion, arithmetic, rounding, sign or type-modifier operations on canonical inputs is canonical: base-10000 digits in 0..9999, no leading or trailing zero digit, zero has no digits, weight 0 and is non-negative (no minus zero), and weight and scale are within format limits with no nonzero decimal digit beyond the scale.",
 "every public operation applied to every canonical input",
 "Canonicity is a representation invariant over all results; tests compare displayed text, which hides zero digits, hidden digits and negative zero.",
 [V,N,C,PA],[("strip",V+" NumericVar::strip"),("result packing",V+" make_result / make_result_no_overflow / into_numeric_buf"),("sign handling",V+" negate / round_common / trunc_common")],["NumericBuf::as_bytes of any result"],
 [{"name":"(ndigits, weight, sign, dscale, digits)","meaning":"representation of one numeric","where":V+" NumericVar"}])

prop("C14", "Type modifiers round-trip and are enforced exactly",
 "A type modifier can be built exactly for precision 1..1000 and scale 0..precision, and yields back that precision and scale. Applying one to a finite numeric rounds it to the modifier's scale (ties away from zero) and reports overflow if and only if the rounded magnitude is at least 10^(precision-scale). The default modifier and NaN leave the value unchanged and report no overflow.",
 "all i32 (precision, scale) pairs; all valid numerics against all modifiers",
 "Overflow depends on the decimal width of the first base-10000 digit after a rounding carry, for every precision/scale pair; tests use a few modifiers.",
 [T,V,N],[("packing",T+" Typmod::new / with_precision / extract / value"),("enforcement",V+" NumericVar::apply_typmod"),("public entry",N+" NumericBuf::apply_typmod")],["Typmod::new","Typmod::extract","NumericBuf::apply_typmod"])

prop("C15", "Digit routines never index out of bounds or overflow machine integers",
 "For every valid numeric input, the arithmetic, comparison, rounding, parsing, printing and conversion routines never read or write outside their digit buffers and never overflow a machine integer. The same holds for square root and for powers with an integer exponent in the domain of C25. They panic only in the documented cases (division by zero, result overflow, and the domain errors of square root and power).",
 "all valid numerics through all non-transcendental public operations",
 "The code uses unchecked indexing guarded only by reasoning about weights and digit counts; a test passes even when an out-of-bounds read happens to hit zero bytes.",
 [V,D,PA,C,N],[("unchecked indexing",V+" get_unchecked / get_unchecked_mut uses"),("spare carry digit",D+" NumericData::reserve_rounding_digit"),("buffer header space",D+" NumericData::with_ndigits / set_header")],["any public operation"])

prop("C16", "Sign operations are exact",
 "Negation, absolute value, signum and increment of a finite numeric x return exactly -x, |x|, the sign of x as -1, 0 or 1, and x+1; negation, absolute value and increment keep the scale of x. NaN maps to NaN for all of them, and is_negative and is_positive report the sign of the value (zero counts as positive, NaN as neither).",
 "all valid numerics",
 "Must hold for every sign/zero/scale combination and long/short storage; tests use a few values.",
 [V,N,B],[("negate/abs/signum/inc",V+" NumericVar::negate / abs / signum / inc"),("public entry",N+" Numeric::negate / abs / signum / inc / is_negative / is_positive")],["Numeric::negate","Numeric::abs","Numeric::signum","Numeric::inc"])

prop("C17", "Factorial is exact",
 "Factorial of n returns exactly n! for every n from 2 up to the largest whose factorial fits the format (32177), 1 for n at most 1, and None above that; the scale is 0.",
 "all i64 arguments",
 "Each value is a product of up to 32176 factors; tests check a few small arguments.",
 [V,N],[("product loop",V+" NumericVar::factorial"),("public entry",N+" NumericBuf::factorial")],["NumericBuf::factorial"])

prop("C18", "Scientific notation denotes the exact value",
 "Formatting a finite numeric with {:e} or {:E} prints a significand with one non-zero digit before the point (zero prints as 0), followed by the exponent with sign and at least two digits. The significand times ten to the exponent equals the value exactly, with no trailing zeros in the significand. Formatting never panics; NaN prints as NaN.",
 "all valid numerics, magnitudes 10^-16383 to 10^131071",
 "Exponent and significand-scale selection depend on the first and last nonzero digits and on powers of ten of either sign far beyond what tests print.",
 [V,N],[("scale selection",V+" NumericVar::select_sci_scale"),("printer",V+" NumericVar::write_sci"),("LowerExp/UpperExp impls",N)],["LowerExp","UpperExp"])

prop("C19", "Square root is accurate, always ends, and is defined exactly on non-negative values",
 "The square root of a non-negative finite numeric x is a numeric whose scale is the largest of 15 - 2w, the scale of x and 0, but at most 1000 (x's first base-10000 digit counts units of 10000^w; w is 0 for zero). It is never negative and differs from the exact root by less than 0.50000005 units of its last place. The square root of NaN is NaN; of a negative value it panics with \"cannot take square root of a negative number\". It always ends and never panics otherwise.",
 "all valid numerics",
 "The root is found by Newton's iteration over divisions whose digits are estimated in floating point: accuracy depends on every digit, and termination on the iteration not alternating between neighbours, which happens for rare values only (such values made it loop forever). Tests tabulate a few results.",
 [V,N],[("Newton iteration",V+" sqrt_common"),("float-estimated division",V+" div_fast_common"),("result scale",V+" NumericVar::sqrt"),("public entry",N+" Numeric::sqrt")],["Numeric::sqrt"])

prop("C20", "Exponential and logarithms to other bases are accurate at their result scale",
 "exp, log, log2, log10 and non-integer powers return the true real-valued function rounded at the documented result scale, within one unit in the last place. exp and pow return None exactly when the true value overflows the format.",
 "all valid numerics in each function's domain",
 "Series truncation and argument reduction errors depend on the argument continuously; tests tabulate a few values.",
 [V,N],[("series and Newton",V+" exp_common, log_common, power_common")],["Numeric::log","Numeric::exp","Numeric::pow"])

prop("C21", "Float conversions are correctly rounded",
 "Converting an f32 or f64 to a numeric gives the value rounded to 6 or 15 significant decimal digits (NaN to NaN, infinities to an error). Converting a numeric to f64 gives the nearest double, with an error exactly on overflow.",
 "all f32/f64 bit patterns; all valid numerics",
 "The float domain is 2^64 patterns and conversion goes through libc formatting and a decimal-to-double routine; tests check a few.",
 [C],[("libc snprintf",C+" from_floating"),("strtod crate",C+" TryFrom<&NumericVar> for f32/f64")],["TryFrom<f32/f64> for NumericBuf","TryFrom<&Numeric> for f32/f64"])

prop("C22", "All operator forms agree with the checked operations",
 "For every combination of owned and borrowed operands, +, -, *, / and % (and their assigning forms) and unary minus give exactly what the corresponding checked operation or negation gives. They panic exactly when that operation has no result, and an assigning operator leaves its target equal to that result.",
 "all operand form combinations (over fifty operator implementations) and all operand values",
 "Each operator form is separate code; the tests exercise few forms on few values, and a swapped operand in one forwarding form shows only for that form.",
 [O,N],[("forwarding impls",O+" Add/Sub/Mul/Div/Rem/Neg and *Assign impls")],["operator impls of NumericBuf and Numeric"])

prop("C23", "In-place mutators agree with the pure operations and keep the value usable",
 "Negating, taking the absolute value, rounding, truncating or applying a type modifier in place leaves the owned numeric equal in value and scale to the result of the corresponding pure operation. Afterwards the numeric is always still usable, even when the operation reported overflow or panicked, and any sequence of such operations behaves as the corresponding sequence of pure ones.",
 "all valid owned numerics and all sequences of in-place operations, including failing ones",
 "In-place operations reuse the same buffer with shifting offsets (header space, spare digit), so behaviour depends on the history of earlier operations; tests apply one operation to a fresh value.",
 [N,D,V],[("buffer hand-over",N+" NumericBuf::as_var_owned / into_var"),("in-place header rewrite",D+" NumericData::set_header / reserve_rounding_digit / offset_*"),("mutators",N+" negate_mut / abs_mut / round_mut / trunc_mut / apply_typmod")],["NumericBuf::*_mut","NumericBuf::apply_typmod"],
 over=("inputs","histories"))

prop("C24", "Serialization round-trips and rejects malformed bytes",
 "Serializing a numeric in a human-readable format writes its display text and in a binary format writes its byte form; deserializing either gives back the same value and scale. Deserializing arbitrary bytes either yields a valid numeric or fails with an error; it never reads out of bounds or panics.",
 "all valid numerics and all byte strings",
 "The byte-string space is unbounded and malformed length words or headers only matter on bytes the tests never supply.",
 [N],[("serde impls",N+" Serialize/Deserialize for NumericBuf and Numeric")],["serde::Serialize","serde::Deserialize"])

prop("C25", "Integer powers are accurate, defined where documented, and follow the NaN rules",
 "pow of a finite base x and an exponent n that is an integer between -2147483648 and 2147483647 always returns a numeric when |x^n| is at most 10^30000. Its scale is the scale of x, but at least 16 and at most 1000. It has the sign of x^n (or is zero) and is within 0.501 units of its last place of the exact power; for n = 2 the allowance grows by one ten-thousandth of a unit per base-10000 digit of x; for n = 0, 1 and -1 it is the exact power correctly rounded, ties away from zero. 0^0 is 1 and 0 to any positive power is 0. NaN^0 and 1^NaN are 1; any other NaN operand gives NaN. Zero to a negative power panics with \"zero raised to a negative power is undefined\", a negative base with a non-integer exponent with \"a negative number raised to a non-integer power yields a complex result\"; nothing else in this domain panics.",
 "all valid numeric bases; integer exponents in i32 whose power is at most 10^30000 in magnitude, and every exponent for NaN, zero and negative bases as stated",
 "Each squaring rounds to a working scale that a floating-point logarithm chooses, and the errors of up to sixty-odd products add up; whether the chosen scale suffices depends on magnitude, closeness to one and exponent together. Tests tabulate a few powers.",
 [V,N],[("square and multiply with adaptive precision",V+" power_int"),("special cases and dispatch",V+" power_common"),("NaN rules and documented panics",V+" NumericVar::pow; "+N+" Numeric::pow")],["Numeric::pow"])

prop("C26", "Natural logarithms are accurate at their documented scale",
 "ln of every positive numeric x returns a numeric whose distance from the natural logarithm of x is at most 1/2 + (1 + 25 |ln x|) (s + 15) / 10^8 units of its last place, s being its scale. That scale is the larger of 16 - d and the scale of x, clamped to 0..1000, where d estimates the decimal weight of the result: 0.9 * 10^(d-1) <= |ln x| <= 1.12 * 10^(d+1), and d = 0 for x = 1. ln(1) is 0. ln(NaN) is NaN. Zero panics with \"cannot take logarithm of zero\", a negative x with \"cannot take logarithm of a negative number\"; no other input panics.",
 "all valid numerics",
 "The argument is reduced by a data-dependent number of square roots and the logarithm summed from a series whose length depends on the scale; the rounding error of every root, division and term is multiplied by up to 2^22 at the end. Near 1 the result has as many leading zeros as the argument has nines. Tests tabulate a few logarithms.",
 [V,N],[("range reduction and series",V+" ln_common"),("weight estimate that chooses the scale",V+" estimate_ln_dweight"),("scale selection and documented panics",V+" NumericVar::ln; "+N+" Numeric::ln")],["Numeric::ln"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
