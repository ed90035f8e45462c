// ---------------------------------------------------------------- library and storage types with assumed contracts
// (each item below is external_body: its contract is assumed by the deductive proof; see DESIGN.md "Trusted base")
pub fn vassert(b: bool) requires b {}
pub fn vassert_msg(b: bool, msg: &str) requires b {}
#[verifier::external_body] pub fn __PANIC__(msg: &str) -> (r: !) requires false { panic!() }
pub fn __EXPECT__<T>(o: Option<T>, msg: &str) -> (r: T) requires o is Some ensures Some(r) == o { match o { Some(v) => v, None => __PANIC__(msg) } }
// a documented panic: only where condition c on the inputs holds
#[verifier::external_body] pub fn __PANIC_DOC__<T>() -> (r: T) ensures false { panic!() }

impl NumericData {
    pub open spec fn ds(&self) -> Seq<i16> { self.buf().subrange(self.off(), self.buf().len() as int) }
    // room for a header before the digits; sizes within u32/i32
    pub open spec fn ok(&self) -> bool { self.wf() && 4 <= self.off() <= self.buf().len() <= 0x0fff_ffff }
}
// slice::split_at_mut on a Vec, slice[a..b].copy_from_slice(s): assumed
#[verifier::external_body]
pub fn vsplit_at_mut(v: &mut Vec<i16>, n: usize) -> (r: (&mut [i16], &mut [i16]))
    requires n <= old(v)@.len()
    ensures r.0@ == old(v)@.subrange(0, n as int), r.1@ == old(v)@.subrange(n as int, old(v)@.len() as int),
{ v.split_at_mut(n) }
#[verifier::external_body]
pub fn vcopy_range(d: &mut [i16], a: usize, b: usize, s: &[i16])
    requires a <= b <= old(d)@.len(), b - a == s@.len()
    ensures final(d)@ == old(d)@.subrange(0, a as int) + s@ + old(d)@.subrange(b as int, old(d)@.len() as int)
{ d[a..b].copy_from_slice(s) }

#[verifier::external_body]
pub struct NumericDigits { x: u8 }
impl NumericDigits {
    pub uninterp spec fn ds(&self) -> Seq<i16>;
    #[verifier::external_body] pub fn vlen(&self) -> (r: usize) ensures r == self.ds().len() { unimplemented!() }
}
// std::borrow::Cow<'a, NumericDigits>
pub enum CowDigits<'a> { Borrowed(&'a NumericDigits), Owned(NumericData) }
impl<'a> CowDigits<'a> {
    pub open spec fn ds(&self) -> Seq<i16> { match *self { CowDigits::Borrowed(d) => d.ds(), CowDigits::Owned(d) => d.ds() } }
    pub open spec fn ok(&self) -> bool { match *self { CowDigits::Borrowed(d) => d.ds().len() <= 0x0fff_0000, CowDigits::Owned(d) => d.ok() } }
    // #[derive(Clone)] of the variable: Cow::clone
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) requires self.ok() ensures r.ok(), r.ds() == self.ds() { unimplemented!() }
}

// ---- the stored form.  nv() is what the bytes denote; boff() is where the digits start inside an owned buffer
pub struct NView { pub nan: bool, pub sign: u16, pub weight: int, pub dscale: int, pub digits: Seq<i16> }
impl NView {
    pub open spec fn mag(&self) -> int { V(self.digits, self.weight) }
    pub open spec fn iv(&self) -> int { if self.sign == 0x4000 { -self.mag() } else { self.mag() } }
    // C13: what a canonical stored numeric looks like
    pub open spec fn can(&self) -> bool {
        if self.nan { self.sign == 0xC000 && self.digits.len() == 0 && self.weight == 0 && self.dscale == 0 } else {
            &&& digs(self.digits) && self.digits.len() <= 40000
            &&& self.sign == 0 || self.sign == 0x4000
            &&& -32767 <= self.weight <= 32767
            &&& 0 <= self.dscale <= 16383
            &&& self.digits.len() == 0 ==> self.weight == 0 && self.sign == 0
            &&& self.digits.len() > 0 ==> self.digits[0] != 0 && self.digits.last() != 0 && self.digits.len() <= self.weight + 1 + (self.dscale + 3) / 4
            &&& dvd(U(self.dscale), self.mag())
        }
    }
}
pub open spec fn nan_view() -> NView { NView { nan: true, sign: 0xC000, weight: 0, dscale: 0, digits: seq![] } }
impl Numeric { pub open spec fn can(&self) -> bool { self.nv().can() } }
impl NumericBuf { pub open spec fn can(&self) -> bool { self.nv().can() } }
// does the exact value m (times the sign) fit the format at scale ds
pub open spec fn fits(m: int, ds: int) -> bool { ds <= 16383 && m < p(KK + 32768) && (m == 0 || m >= p(KK - 32767)) }

// ---- views of the working form
impl<'a> NumericVar<'a> {
    pub open spec fn sd(&self) -> Seq<i16> { self.digits.ds().subrange(0, self.ndigits as int) }
    // structure: digits in range, buffer big enough, sizes far from machine limits
    pub open spec fn st(&self) -> bool { self.st0() && 0 <= self.dscale <= 200000 }
    pub open spec fn st0(&self) -> bool {
        &&& self.digits.ok() && 0 <= self.ndigits <= self.digits.ds().len() && digs(self.sd())
        &&& -99000 <= self.weight <= 99000 && self.ndigits <= 99000 && self.ndigits - 1 - self.weight <= 99000
        &&& self.sign == 0 || self.sign == 0x4000
    }
    // enough for strip() and make_result() to be safe
    pub open spec fn gst(&self) -> bool {
        &&& self.digits.ok() && 0 <= self.ndigits <= self.digits.ds().len() && digs(self.sd()) && self.dscale >= 0
        &&& -0x4000_0000 <= self.weight - self.ndigits && self.weight <= 0x4000_0000
        &&& self.sign == 0 || self.sign == 0x4000
    }
    // the denoted value is V(..): no digit further than 99000 positions below the point
    pub open spec fn wst(&self) -> bool { self.gst() && -99000 <= self.weight && self.ndigits - 1 - self.weight <= 99000 }
    pub open spec fn mag(&self) -> int { V(self.sd(), self.weight as int) }
    pub open spec fn iv(&self) -> int { if self.sign == 0x4000 { -self.mag() } else { self.mag() } }
    pub open spec fn view(&self) -> NView { NView { nan: self.sign == 0xC000, sign: self.sign, weight: self.weight as int, dscale: self.dscale as int, digits: self.sd() } }
    // normalised by strip()
    pub open spec fn norm(&self) -> bool {
        &&& self.ndigits == 0 ==> self.weight == 0 && self.sign == 0
        &&& self.ndigits > 0 ==> self.sd()[0] != 0 && self.sd()[self.ndigits - 1] != 0
    }
    pub open spec fn can(&self) -> bool { self.st() && self.view().can() && !self.view().nan }
}
// #[derive(Clone)]
impl<'a> NumericVar<'a> {
    #[verifier::external_body] pub fn clone(&self) -> (ret: Self)
        requires self.digits.ok()
        ensures ret.digits.ds() == self.digits.ds(), ret.ndigits == self.ndigits, ret.weight == self.weight, ret.dscale == self.dscale, ret.sign == self.sign, ret.digits.ok() { unimplemented!() }
}
pub open spec fn fnz(v: &NumericVar) -> bool { (v.ndigits == 0 ==> v.weight == 0 && v.sign == 0) && (v.ndigits > 0 ==> v.sd()[0] != 0) }
pub open spec fn sz(v: &NumericVar, k: int) -> bool { -k <= v.weight <= k && v.ndigits <= k && v.ndigits - 1 - v.weight <= k && v.dscale <= k }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
// size bounds of a sum or difference
pub open spec fn sum_sz(a: &NumericVar, b: &NumericVar, r: &NumericVar) -> bool {
    r.ndigits > 0 ==> r.weight <= imax(a.weight as int, b.weight as int) + 1
            && r.ndigits - 1 - r.weight <= imax(a.ndigits - 1 - a.weight, b.ndigits - 1 - b.weight)
            && r.ndigits <= 1 + imax(a.weight as int, b.weight as int) + 1 + imax(a.ndigits - 1 - a.weight, b.ndigits - 1 - b.weight)
}
pub open spec fn iabs(a: int) -> int { if a >= 0 { a } else { -a } }
impl NView {
    // denotes exactly v (in units of 10000^-KK) at scale ds, canonically
    pub open spec fn is(&self, v: int, ds: int) -> bool { self.can() && !self.nan && self.iv() == v && self.dscale == ds }
}
// an operation whose exact result is v at scale ds: the result if it fits the format, else None
pub open spec fn exact(r: Option<NumericBuf>, v: int, ds: int) -> bool {
    &&& r is Some <==> fits(iabs(v), ds)
    &&& r matches Some(b) ==> b.nv().is(v, ds)
}
pub open spec fn some_nan(r: Option<NumericBuf>) -> bool { r matches Some(b) && b.nv() == nan_view() }

// the total order: numeric value, NaN equal to itself and greatest
pub open spec fn cmp_view(a: NView, b: NView) -> Ordering {
    if a.nan { if b.nan { Ordering::Equal } else { Ordering::Greater } } else if b.nan { Ordering::Less }
    else if a.iv() > b.iv() { Ordering::Greater } else if a.iv() < b.iv() { Ordering::Less } else { Ordering::Equal }
}
// ---- rounding as seen by a user, on signed values in units of 10000^-KK
pub open spec fn clamp1000(s: int) -> int { if s < -1000 { -1000 } else if s > 1000 { 1000 } else { s } }
// nearest multiple of the unit, ties away from zero / nearest toward zero
pub open spec fn round_iv(x: int, ds: int) -> int { if x < 0 { -roundm(-x, ds) } else { roundm(x, ds) } }
pub open spec fn trunc_iv(x: int, ds: int) -> int { if x < 0 { -truncm(-x, ds) } else { truncm(x, ds) } }
// Euclidean division rounds toward negative infinity for a positive divisor
pub open spec fn floor_iv(x: int) -> int { (x / p(KK)) * p(KK) }
pub open spec fn ceil_iv(x: int) -> int { -((-x / p(KK)) * p(KK)) }
// ---- type modifiers
pub open spec fn tm_is(t: Typmod, p: int, s: int) -> bool { 1 <= p <= 1000 && 0 <= s <= p && t.0 == p * 65536 + s + 4 }
pub open spec fn tm_ok(t: Typmod) -> bool { exists|p: int, s: int| tm_is(t, p, s) }
// ---- products: V(a)*V(b) is a multiple of 10000^KK when the operands have at most KK fractional digits together
pub open spec fn mul_exact(a: int, b: int) -> bool { dvd(p(KK), a * b) }
pub open spec fn mulm(a: int, b: int) -> int { (a * b) / p(KK) }
pub open spec fn mul_iv(a: int, b: int) -> int { if (a < 0) == (b < 0) { mulm(iabs(a), iabs(b)) } else { -mulm(iabs(a), iabs(b)) } }
pub open spec fn mul_sz(a: &NumericVar, b: &NumericVar, rs: int) -> bool {
    &&& 0 <= rs <= 99000
    &&& -45000 <= a.weight <= 45000 && -45000 <= b.weight <= 45000 && a.ndigits <= 45000 && b.ndigits <= 45000
    &&& a.ndigits > 0 && b.ndigits > 0 ==> a.ndigits - 1 - a.weight + b.ndigits - 1 - b.weight <= 90000
}
// the result digits computed are all the product has
pub open spec fn mul_ok(a: &NumericVar, b: &NumericVar, rs: int) -> bool {
    mul_sz(a, b, rs) && (a.ndigits > 0 && b.ndigits > 0 ==> a.ndigits + b.ndigits <= a.weight + b.weight + 4 + (rs + 3) / 4)
}
// ---- integer conversions
pub enum TFKind { Invalid, Overflow }
pub struct NumericTryFromError { pub kind: TFKind }
impl NumericTryFromError {
    pub fn invalid() -> (r: Self) ensures r.kind is Invalid { NumericTryFromError { kind: TFKind::Invalid } }
    pub fn overflow() -> (r: Self) ensures r.kind is Overflow { NumericTryFromError { kind: TFKind::Overflow } }
}
// the value rounded half away from zero if it lies in lo..=hi, else an overflow error; NaN is invalid
pub open spec fn int_conv<T>(r: Result<T, NumericTryFromError>, v: NView, lo: int, hi: int, iv: spec_fn(T) -> int) -> bool {
    let n = round_iv(v.iv(), 0) / p(KK);
    if v.nan { r matches Err(e) && e.kind is Invalid } else if lo <= n <= hi { r matches Ok(x) && iv(x) == n } else { r matches Err(e) && e.kind is Overflow }
}
// ---- quotients, in units of 10000^-KK at decimal scale ds: x/y rounded half away from zero, or truncated
pub open spec fn quot_round(x: int, y: int, ds: int) -> int { ((x * p(KK) + y * (U(ds) / 2)) / (y * U(ds))) * U(ds) }
pub open spec fn quot_trunc(x: int, y: int, ds: int) -> int { (x * p(KK) / (y * U(ds))) * U(ds) }
pub open spec fn div_sz(v: &NumericVar, k: int) -> bool { -k <= v.weight <= k && v.ndigits <= k && v.ndigits - 1 - v.weight <= k }
// PostgreSQL's select_div_scale: at least 16 significant digits, not less than the input scales, at most 1000
pub open spec fn div_scale(s1: Seq<i16>, w1: int, d1: int, s2: Seq<i16>, w2: int, d2: int) -> int {
    let a = if s1.len() > 0 { w1 } else { 0 }; let f = if s1.len() > 0 { s1[0] as int } else { 0 };
    let b = if s2.len() > 0 { w2 } else { 0 }; let g = if s2.len() > 0 { s2[0] as int } else { 0 };
    let qw = if f <= g { a - b - 1 } else { a - b };
    imin(imax(imax(imax(16 - 4 * qw, d1), d2), 0), 1000)
}
// signed quotients and the remainder with the sign of the dividend
pub open spec fn rquot(x: int, y: int, ds: int) -> int { if (x < 0) == (y < 0) { quot_round(iabs(x), iabs(y), ds) } else { -quot_round(iabs(x), iabs(y), ds) } }
pub open spec fn tquot(x: int, y: int, ds: int) -> int { if (x < 0) == (y < 0) { quot_trunc(iabs(x), iabs(y), ds) } else { -quot_trunc(iabs(x), iabs(y), ds) } }
// x - trunc(x/y)*y
pub open spec fn remv(x: int, y: int) -> int { x - (tquot(x, y, 0) / p(KK)) * y }
