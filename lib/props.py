"""Which functions under contract decide which property, at what level, and with which remaining trust."""
import assemble as ASM
ASSUME = [
    'Verus and Z3 are sound; rustc compiles the extracted text and the original to the same behaviour (the extractor only performs the rewrites listed in DESIGN.md)',
    'ghost integers are mathematical; every machine operation in a verified function is checked for overflow, bounds and division by zero',
]
TR = ['memory model of the raw pointers in NumericData and NumericBuf: an allocation is a sequence of 16-bit words, slice::from_raw_parts(_mut) and the casts to NumericBinary read and write exactly the words they cover (contracts/store_def.rs: Ptr, PtrB, vslice*, vbin_*); bounds, offsets and evenness are obligations, aliasing between copies of a pointer is not modelled',
      'UnionField::as_ref/as_mut and FlexArray: the union fields of NumericChoice all start at its first word (repr(C))',
      'Vec as the allocator: with_capacity(n) allocates exactly n, from_raw_parts frees what was allocated with that capacity; that no buffer is freed twice or leaked is not proved',
      'std::borrow::Cow<NumericDigits>: to_mut and clone as std defines them over the proved ToOwned and Borrow', 'little-endian target (as checked here)']
def trusted(cs, keys): return TR + ['contract of %s (body not verified here)' % k for k in keys if 'trusted' in cs[k].opts]
N = 'num Numeric::'; V = 'var NumericVar::'; B = 'num NumericBuf::'
INT = 'u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize'.split()
OPS = ['NumericBuf', '&NumericBuf', '&Numeric']
CMPS = [('NumericBuf', 'NumericBuf'), ('Numeric', 'Numeric'), ('NumericBuf', 'Numeric'), ('NumericBuf', '&Numeric'), ('Numeric', 'NumericBuf'), ('&Numeric', 'NumericBuf'), ('&Numeric', 'Numeric'), ('Numeric', '&Numeric'), ('&NumericBuf', 'NumericBuf'), ('NumericBuf', '&NumericBuf')]
ARITH = [N + x for x in ('checked_add', 'checked_sub', 'checked_mul', 'checked_div', 'checked_div_trunc', 'checked_rem', 'round', 'trunc', 'ceil', 'floor', 'negate', 'abs', 'signum', 'inc')]
MUT = [B + x for x in ('negate_mut', 'abs_mut', 'round_mut', 'trunc_mut', 'apply_typmod')]
MAKE = [B + x for x in ('nan', 'zero', 'factorial', 'clone Clone')] + ['parse NumericBuf::from_str FromStr'] + ['convert NumericBuf::from From<%s>' % t for t in INT + ['bool']]
STORE = [B + x for x in ('from_raw_parts', 'as_bytes', 'as_numeric', 'deref Deref', 'as_ref AsRef<Numeric>', 'borrow Borrow<Numeric>', 'into_var', 'as_var_owned', 'drop Drop')] + [N + x for x in ('from_bytes_unchecked', 'as_bytes', 'as_binary', 'nan', 'zero', 'as_var')] + [V + x for x in ('into_numeric_buf', 'make_result', 'make_result_no_overflow')]
TOINT = ['convert %s::try_from TryFrom<%s>' % (t, f) for t in INT for f in ('NumericBuf', '&NumericBuf', '&Numeric')]
BINOPS = ['ops %s::%s %s<%s>' % (l, t.lower(), t, r) for t in ('Add', 'Sub', 'Mul', 'Div', 'Rem') for l in OPS for r in OPS]
ASGOPS = ['ops NumericBuf::%s_assign %sAssign<%s>' % (t.lower(), t, r) for t in ('Add', 'Sub', 'Mul', 'Div', 'Rem') for r in OPS]
NEGOPS = ['ops %s::neg Neg' % l for l in OPS]
COMPARE = [N + 'cmp'] + ['ops %s::eq PartialEq<%s>' % x for x in CMPS] + ['ops %s::partial_cmp PartialOrd<%s>' % x for x in CMPS] + ['ops %s::cmp Ord' % x for x in ('NumericBuf', 'Numeric')]
HASHES = [N + 'hash', 'num NumericBuf::hash Hash', 'num Numeric::hash Hash']
SHOW = ['num NumericBuf::fmt fmt::Display', 'num Numeric::fmt fmt::Display', 'var NumericVar::fmt fmt::Display', N + 'normalize'] + ['num %s::fmt fmt::%s' % (t, x) for t in ('Numeric', 'NumericBuf') for x in ('LowerExp', 'UpperExp')]
ASK = [N + x for x in ('is_nan', 'is_negative', 'is_positive', 'scale')]
SERDE = ['num %s::serialize serde::Serialize' % t for t in ('NumericBuf', 'Numeric')] + ['num %s::deserialize serde::Deserialize<\'de>' % t for t in ('NumericBuf', '&\'deNumeric')] + ["num NumericBufVisitor::visit_%s serde::de::Visitor<'de> inNumericBufdeserialize" % x for x in ('bytes', 'str')] + ["num NumericVisitor::visit_borrowed_bytes serde::de::Visitor<'de>", 'binary NumericBinary::is_valid', 'num Numeric::to_owned ToOwned']
TYPMOD = ['typmod Typmod::' + x for x in ('new', 'with_precision', 'value', 'extract', 'default Default')]
PROPS = {
 'C01': dict(level='proof', foreign=r'cmp_abs', roots=[N + 'checked_add', N + 'checked_sub'], note='checked_add / checked_sub proved for all canonical operands down to the digit loops.'),
 'C02': dict(level='proof', foreign=r'round_common', roots=[N + 'checked_mul'], note='checked_mul proved for all canonical operands down to the digit loops.'),
 'C03': dict(level='proof', foreign=r'::(round|trunc)_common', roots=[N + 'checked_div'], note='checked_div proved for all canonical operands down to the digit loops of long division (estimate, correction, add-back).'),
 'C04': dict(level='proof', foreign=r'::(round_common|trunc_common|mul_common|sub_common|add_abs|sub_abs|cmp_abs)$', roots=[N + 'checked_div_trunc', N + 'checked_rem'], note='checked_div_trunc and checked_rem proved for all canonical operands down to the digit loops.'),
 'C05': dict(level='proof', foreign=r'::(add_common|sub_common|add_abs|sub_abs|cmp_abs|cmp_common)$', roots=[N + 'round', N + 'trunc', N + 'ceil', N + 'floor'], note='round, trunc, ceil, floor proved for all canonical operands and every scale.'),
 'C06': dict(level='proof', roots=[N + 'cmp'] + ['ops %s::eq PartialEq<%s>' % x for x in CMPS] + ['ops %s::partial_cmp PartialOrd<%s>' % x for x in CMPS] + ['ops %s::cmp Ord' % x for x in ('NumericBuf', 'Numeric')], note='Numeric::cmp and every PartialEq, PartialOrd and Ord impl proved equal to the value order with NaN greatest for all canonical operands.', extra=['core: the default methods ne, lt, le, gt, ge, max, min of PartialEq/PartialOrd/Ord and the blanket impls on references are what core documents']),
 'C07': dict(level='proof', roots=[N + 'hash', 'num NumericBuf::hash Hash', 'num Numeric::hash Hash'], note='Every write a numeric makes to a hasher is proved to be a function of the value alone, and canonical values that compare equal are proved to have the same one.', extra=['core: Hash for [i16] feeds a function of the slice contents; Hasher::write_* record what they are given']),
 'C08': dict(level='proof', roots=['parse NumericBuf::from_str FromStr'], lemmas=['lemma_grammar_sound', 'lemma_grammar_complete', 'lemma_grammar_nan'], note='from_str proved, down to the digit loops, to compute the maximal-munch reading of every string of at most 0x3ff00000 bytes; that this reading accepts exactly the grammar is proved as lemmas over the contract.', extra=['str::as_bytes; u8::is_ascii_digit / is_ascii_whitespace; <[u8; 3]>::try_from, make_ascii_lowercase, byte-array comparison; SmallVec taken as Vec']),
 'C09': dict(level='proof', roots=['num NumericBuf::fmt fmt::Display', 'num Numeric::fmt fmt::Display', 'var NumericVar::fmt fmt::Display', N + 'normalize', 'parse NumericBuf::from_str FromStr'], foreign=r'^(parse|error) |make_result', lemmas=['lemma_ntext_eq', 'lemma_parse_back'], note='The bytes Display writes and normalize returns are proved equal to the exact decimal expansion (respectively its stripped form) for every canonical numeric; that normalized texts are equal exactly for numerics that compare equal, and that the text parses back to the same value and scale, are lemmas over the contracts of the printer and of from_str.', extra=['core::fmt: integer formatting of a non-negative i16 with {} and {:>0width$}; ToString collects what Display writes; String::find/truncate']),
 'C10': dict(level='proof', roots=['convert NumericBuf::from From<%s>' % t for t in INT + ['bool']], note='Every From impl for the twelve integer types and bool proved for every value, down to the digit loop.'),
 'C11': dict(level='proof', foreign=r'::round_common', roots=['convert %s::try_from TryFrom<%s>' % (t, f) for t in INT for f in ('NumericBuf', '&NumericBuf', '&Numeric')], note='Every TryFrom impl from owned, borrowed-owned and borrowed numerics to the twelve integer types proved for every canonical numeric.'),
 'C12': dict(level='proof', storage=True, roots=STORE, lemmas=['lemma_bytes_back', 'lemma_bytes_inj', 'lemma_bytes_nan', 'lemma_bytes_parts'], note='The storage functions (header packing and decoding, header placement, the buffer type and its conversions to and from the working form) are proved against the on-disk layout written as a specification: as_bytes returns byte_form of the numeric, from_bytes_unchecked denotes what those bytes decode to, and decoding the byte form gives the numeric back for every weight, scale, sign and digit string.'),
 'C13': dict(level='proof', roots=ARITH + MUT + MAKE + BINOPS + ASGOPS + NEGOPS + [N + 'sqrt'], foreign=r'(add_abs|sub_abs|cmp_abs|cmp_common|add_common|sub_common|mul_common|div_common|mod_common|div_trunc_common|factorial|typmod .*)$', note='Every function that returns or leaves a numeric is proved to leave a canonical one (can(): digits 0..9999, no leading or trailing zero digit, unsigned zero, weight and scale within the format, no digit beyond the scale), for all canonical operands, down to the digit loops.'),
 'C14': dict(level='proof', foreign=r'::round_common', roots=['typmod Typmod::' + x for x in ('new', 'with_precision', 'value', 'extract')] + [k for k in ('typmod Typmod::default Default',)] + [B + 'apply_typmod'], note='Typmod construction, extraction and application proved for every precision, scale and canonical numeric.'),
 'C15': dict(level='proof', roots=ARITH + MUT + MAKE + BINOPS + ASGOPS + NEGOPS + TOINT + COMPARE + HASHES + SHOW + ASK + TYPMOD + [N + 'sqrt', N + 'pow'], only=r'possible arithmetic|possible division|bit shift|precondition not satisfied|unreachable|constructed value|panic', note='Every index (checked or get_unchecked), slice range and machine operation of every non-transcendental routine (square root and integer powers included) is a proof obligation: in bounds, no overflow, no division by zero; every panic is unreachable or one of the documented ones.'),
 'C16': dict(level='proof', foreign=r'::(add_common|add_abs|sub_abs|cmp_abs)$', roots=[N + 'negate', N + 'abs', N + 'signum', N + 'inc', N + 'is_nan', N + 'is_negative', N + 'is_positive', N + 'scale'], note='sign operations proved for all canonical operands.'),
 'C17': dict(level='proof', foreign=r'::(mul_common|round_common)$|^convert ', roots=[B + 'factorial'], note='factorial proved equal to n! for every i64, including that 32177! is the largest factorial that fits (evaluated by the verifier).'),
 'C18': dict(level='proof', foreign=r'::(div_common|round_common|trunc_common)$', roots=['num %s::fmt fmt::%s' % (t, x) for t in ('Numeric', 'NumericBuf') for x in ('LowerExp', 'UpperExp')], lemmas=['lemma_sci_back'], note='The bytes {:e} and {:E} write are proved, for every canonical numeric, to be a significand with one nonzero digit before the point and no trailing zeros, then the exponent, whose product is exactly the value; the division that produces the significand is proved down to the digit loop.', extra=['(d as f64).log10() as i32 is floor(log10 d) for d in 1..9999 (floating point; each of the 9999 cases is evaluated against the real crate by every run of the search)', 'core::fmt: {} of a NumericVar is its Display output; {:<+03} of an i32']),
 'C19': dict(level='proof', foreign=r'::(add_common|add_abs|sub_abs|cmp_abs|cmp_common|round_common|make_result_no_overflow)$', roots=[N + 'sqrt'], note='sqrt proved for every canonical numeric down to the digit loops of the float-estimated division (div_fast_common) and the product: the documented scale, less than 0.50000005 units of error, NaN and the negative-operand panic, and termination of the Newton iteration.', extra=['IEEE double arithmetic as axioms about a ghost real (contracts/float.rs): each +, -, *, / is within one part in 9e15 (plus 1e-30) of the exact result up to 1e30; conversion from i16 and i32 and comparison are exact; conversion to i32 truncates']),
 'C22': dict(level='proof', stop=r'^(var |num Numeric::(checked_|negate)|num NumericBuf::negate_mut)', roots=['ops %s::%s %s<%s>' % (l, t.lower(), t, r) for t in ('Add', 'Sub', 'Mul', 'Div', 'Rem') for l in OPS for r in OPS] + ['ops NumericBuf::%s_assign %sAssign<%s>' % (t.lower(), t, r) for t in ('Add', 'Sub', 'Mul', 'Div', 'Rem') for r in OPS] + ['ops %s::neg Neg' % l for l in OPS], note='Every operator impl (nine operand forms, three assignment forms for each of + - * / %, and negation) proved: it returns the exact result of the operation, and panics with the documented message only where the result does not exist.'),
 'C23': dict(level='proof', foreign=r'^var ', roots=[B + 'negate_mut', B + 'abs_mut', B + 'round_mut', B + 'trunc_mut', B + 'apply_typmod', B + 'clone Clone', N + 'negate', N + 'abs', N + 'round', N + 'trunc'], note='every in-place mutator proved to leave a canonical value equal to the pure result; histories follow by composition.', bounded=['that the buffer is still usable after a caught panic (unwinding is not modelled by Verus; the search runs histories with caught panics)']),
 'C24': dict(level='proof', storage=True, roots=SERDE, foreign=r'^(parse|error|var|data|convert) |^binary (?!.*is_valid)|^num (NumericBuf|Numeric)::(?!serialize|deserialize|to_owned)', lemmas=['lemma_serde_back'], note='is_valid is proved to accept exactly the byte strings that are the whole stored form of a canonical numeric (or a NaN), reading only inside them; serialize writes the display text or the byte form, and deserialize returns exactly the numeric those bytes or that text denote, or an error, for every input; that this gives back what was serialized is a lemma over the contracts.', extra=['serde data formats (Serializer, Deserializer): they write what they are given, and hand the visitor the string or the bytes at hand', 'core: ToString over the Display impls (proved for C09), str::parse calls FromStr', 'Vec<i16> filled by copy_from_nonoverlapping holds the bytes copied; u16/u32/i16::from_ne_bytes on a little-endian target']),
 'C25': dict(level='proof', foreign=r'::(add_common|sub_common|add_abs|sub_abs|cmp_abs|cmp_common|mul_common|round_common|trunc_common|div_common|div_fast_common|sqrt_common|ln_common|estimate_ln_dweight|make_result|make_result_no_overflow)$|^convert ', roots=[N + 'pow'], note='pow proved, for every canonical base and every exponent with an integer value that fits i32 (and for NaN, zero bases and the two documented panics with any exponent), down to the square-and-multiply loop with its floating-point choice of working precision.', extra=['IEEE double arithmetic as axioms about a ghost real (contracts/float.rs): each +, -, *, / is within one part in 9e15 (plus 1e-30) of the exact result up to 1e30; conversion from i16 and i32 and comparison are exact; conversion to i32 truncates; f64::log10 is within 1e-14 of the real logarithm and f64::ln within 0.001, lg being a ghost function with the laws of the decimal logarithm as axioms', 'exponents that are not integers, or do not fit i32, and integer powers of magnitude above 10^30000 are outside the contract (exp_common is a stub that no verified path calls)']),
 'C26': dict(level='proof', foreign=r'::(add_common|sub_common|add_abs|sub_abs|cmp_abs|cmp_common|mul_common|round_common|div_fast_common|sqrt_common|power_int|power_common|make_result|make_result_no_overflow)$|^convert ', roots=[N + 'ln'], note='ln proved for every canonical numeric: the documented scale, the error bound against the real logarithm (range reduction by square roots, the Taylor series with its truncation and rounding errors, the doublings), the NaN rule and the two domain panics, and termination of both loops.', extra=['the natural logarithm is a ghost function of the reals with these axioms (contracts/float.rs, contracts/lemmas_ln.rs): for positive x and y, ln(xy) = ln x + ln y, ln is monotone, 1 - 1/x <= ln x <= x - 1, and ln x = ln 10 * log10 x with 2.302585092 <= ln 10 <= 2.302585093; for |z| <= 1/10 the first n terms of 2(z + z^3/3 + z^5/5 + ...) are within 2.1 |z|^(2n+1)/(2n+1) of ln((1+z)/(1-z))', 'IEEE double arithmetic as axioms about a ghost real (contracts/float.rs): each +, -, *, / is within one part in 9e15 (plus 1e-30) of the exact result up to 1e30; conversion from i16 and i32 and comparison are exact; conversion to i32 truncates; f64::ln and f64::log10 are within 0.001 and 1e-14 of the real logarithm; the literal LN_10 is within 1e-9 of it'])
}
TECH = 'deductive verification: Verus contracts on functions extracted from /repo on every run'
COMMON = 'Trusted: Verus/Z3, the extractor rewrites listed in DESIGN.md, the memory model behind the storage types (raw pointers, unions, the allocator). A bounded search of the real crate runs next to the proof and supplies failing inputs.'
NA = {
 'C20': 'Accuracy of exp, log, log2, log10 and non-integer powers (integer powers are C25, the natural logarithm is C26) is a statement about truncated Taylor series against transcendental functions with heuristic (f64-estimated) guard digits; it needs real analysis that Verus has no theory for.',
 'C21': 'The conversions go through core float formatting and parsing; Verus has no float theory and the standard library code is outside the tree, so a contract would assume the property itself.',
}
