// ---------------------------------------------------------------- f64: IEEE 754 binary64 as far as div_fast_common uses it (assumed)
// rv(x) is the real number a finite x stands for; fin(x) says that it is finite.  Each operation below is correctly rounded, so it
// differs from the exact result by at most 1/9e15 of it (2^-53 < 1/9e15) as long as nothing overflows or underflows.
pub mod fl {
use super::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
pub const LN_10: f64 = 2.30258509299404568402;
pub const LOG10_E: f64 = 0.43429448190325182765;
pub uninterp spec fn rv(x: f64) -> real;
pub uninterp spec fn fin(x: f64) -> bool;
pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { -x } }
pub open spec fn near(c: real, e: real) -> bool { rabs(c - e) * 9000000000000000real <= rabs(e) + 1real/1000000000000000000000000000000real }
pub open spec fn fsafe(e: real) -> bool { rabs(e) <= 1000000000000000000000000000000real }
pub broadcast axiom fn ax_mulreq(a: f64, b: f64) ensures #[trigger] <f64 as MulSpec>::mul_req(a, b);
pub broadcast axiom fn ax_addreq(a: f64, b: f64) ensures #[trigger] <f64 as AddSpec>::add_req(a, b);
pub broadcast axiom fn ax_divreq(a: f64, b: f64) ensures #[trigger] <f64 as DivSpec>::div_req(a, b);
pub broadcast axiom fn ax_mul(a: f64, b: f64, r: f64) requires #[trigger] mul_ensures::<f64>(a, b, r), fin(a), fin(b), fsafe(rv(a) * rv(b)) ensures fin(r), near(rv(r), rv(a) * rv(b));
pub broadcast axiom fn ax_add(a: f64, b: f64, r: f64) requires #[trigger] add_ensures::<f64>(a, b, r), fin(a), fin(b), fsafe(rv(a) + rv(b)) ensures fin(r), near(rv(r), rv(a) + rv(b));
pub broadcast axiom fn ax_div(a: f64, b: f64, r: f64) requires #[trigger] div_ensures::<f64>(a, b, r), fin(a), fin(b), rv(b) != 0real, fsafe(rv(a) / rv(b)) ensures fin(r), near(rv(r), rv(a) / rv(b));
pub broadcast axiom fn ax_ge(a: f64, b: f64, r: bool) requires #[trigger] ge_ensures::<f64>(a, b, r), fin(a), fin(b) ensures r == (rv(a) >= rv(b));
pub broadcast axiom fn ax_of32(a: i32, r: f64) requires #[trigger] vstd::float::float_cast_spec::<i32, f64>(a, r) ensures fin(r), rv(r) == a as real;
pub broadcast axiom fn ax_of16(a: i16, r: f64) requires #[trigger] vstd::float::float_cast_spec::<i16, f64>(a, r) ensures fin(r), rv(r) == a as real;
// float to integer: toward zero
pub broadcast axiom fn ax_to32(a: f64, r: i32) requires #[trigger] vstd::float::float_cast_spec::<f64, i32>(a, r), fin(a), -2147483648real < rv(a) < 2147483648real
    ensures rv(a) >= 0real ==> r as real <= rv(a) < r as real + 1real, rv(a) <= 0real ==> r as real >= rv(a) > r as real - 1real;
pub axiom fn ax_lit() ensures fin(0.0), fin(1.0), rv(0.0) == 0real, rv(1.0) == 1real, fin(3.0), rv(3.0) == 3real, fin(LN_10), 2302585092real <= 1000000000real * rv(LN_10) <= 2302585093real;
pub broadcast axiom fn ax_gt(a: f64, b: f64, r: bool) requires #[trigger] gt_ensures::<f64>(a, b, r), fin(a), fin(b) ensures r == (rv(a) > rv(b));
pub broadcast axiom fn ax_lt(a: f64, b: f64, r: bool) requires #[trigger] lt_ensures::<f64>(a, b, r), fin(a), fin(b) ensures r == (rv(a) < rv(b));
// the decimal logarithm of a positive real, and what the library's logarithms compute of it (far less than they promise)
pub uninterp spec fn lg(x: real) -> real;
pub axiom fn ax_lg(x: real, y: real) requires x > 0real, y > 0real ensures lg(x * y) == lg(x) + lg(y), x <= y ==> lg(x) <= lg(y), lg(10real) == 1real;
// the natural logarithm of a positive real
pub uninterp spec fn lnr(x: real) -> real;
pub axiom fn ax_ln(x: real, y: real) requires x > 0real, y > 0real ensures lnr(x * y) == lnr(x) + lnr(y), x <= y ==> lnr(x) <= lnr(y), 1real - 1real / x <= lnr(x) <= x - 1real;
pub axiom fn ax_ln10(x: real) requires x > 0real ensures lnr(x) == lnr(10real) * lg(x), 2302585092real <= 1000000000real * lnr(10real) <= 2302585093real;
pub assume_specification[ f64::log10 ](x: f64) -> (r: f64) ensures fin(x) && 1real / 100real <= rv(x) <= 100000000000000000real ==> fin(r) && rabs(rv(r) - lg(rv(x))) * 100000000000000real <= 1real;
pub assume_specification[ f64::ln ](x: f64) -> (r: f64) ensures fin(x) && 1real <= rv(x) <= 10000000000real ==> fin(r) && rabs(1000000real * rv(r) - 2302585real * lg(rv(x))) <= 1000real;
pub assume_specification[ f64::abs ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && rv(r) == rabs(rv(x));
pub broadcast group group_f64 { ax_mulreq, ax_addreq, ax_divreq, ax_mul, ax_add, ax_div, ax_ge, ax_gt, ax_lt, ax_of32, ax_of16, ax_to32 }
pub assume_specification[ i32::unsigned_abs ](x: i32) -> (r: u32) ensures r as int == (if x >= 0 { x as int } else { -x as int });
pub assume_specification[ i32::abs ](x: i32) -> (r: i32) requires x != i32::MIN ensures r as int == (if x >= 0 { x as int } else { -x as int }), r >= 0;
}
pub use fl::*;
broadcast use fl::group_f64;
