// ---------------------------------------------------------------- private traits of convert.rs (declarations with specifications; impl bodies come from /repo)
global size_of usize == 8;
global size_of isize == 8;
pub trait Zero: Sized + Copy {
    const ZERO: Self;
    spec fn ival(self) -> int;
    proof fn zero_is() ensures Self::ZERO.ival() == 0;
    fn is_zero(self) -> (ret: bool) ensures ret == (self.ival() == 0);
}
pub trait Unsigned: Zero {
    const MAX_NDIGITS: usize;
    spec fn umax() -> int;
    proof fn bound(self) ensures 0 <= self.ival() <= Self::umax() < p(Self::MAX_NDIGITS as int), 1 <= Self::MAX_NDIGITS <= 100;
    // std::mem::size_of::<Self>()
    fn size__() -> (ret: usize) ensures Self::umax() >= 9999 ==> ret >= 2;
    fn next_digit(self) -> (ret: (NumericDigit, Self)) ensures ret.0 == self.ival() % 10000, ret.1.ival() == self.ival() / 10000;
    fn from_numeric_digit(n: NumericDigit) -> (ret: Self) requires 0 <= n <= 9999, Self::umax() >= 9999 ensures ret.ival() == n;
    fn from_u64(i: u64) -> (ret: Self) requires i <= 10000, Self::umax() >= 10000 ensures ret.ival() == i;
    fn overflowing_mul(self, rhs: Self) -> (ret: (Self, bool)) requires Self::umax() >= 9999 ensures ret.1 <==> self.ival() * rhs.ival() > Self::umax(), !ret.1 ==> ret.0.ival() == self.ival() * rhs.ival();
    fn overflowing_add(self, rhs: Self) -> (ret: (Self, bool)) requires Self::umax() >= 9999 ensures ret.1 <==> self.ival() + rhs.ival() > Self::umax(), !ret.1 ==> ret.0.ival() == self.ival() + rhs.ival();
}
pub trait Signed: Zero {
    type AbsType: Unsigned;
    const MIN_VALUE: Self;
    spec fn smin() -> int;
    spec fn smax() -> int;
    proof fn sbound(self) ensures Self::smin() <= self.ival() <= Self::smax(), Self::smin() == -Self::smax() - 1, Self::MIN_VALUE.ival() == Self::smin(), Self::smin() <= -128;
    fn size__() -> (ret: usize) ensures Self::smax() >= 9999 ==> ret >= 2;
    // the derived PartialEq of the primitive
    fn eq__(self, o: Self) -> (ret: bool) ensures ret == (self.ival() == o.ival());
    fn from_numeric_digit(n: NumericDigit) -> (ret: Self) requires 0 <= n <= 9999, Self::smax() >= 9999 ensures ret.ival() == n;
    fn from_i64(i: i64) -> (ret: Self) requires 0 <= i <= 10000, Self::smax() >= 10000 ensures ret.ival() == i;
    fn is_negative(self) -> (ret: bool) ensures ret == (self.ival() < 0);
    fn negative(self) -> (ret: Self) requires self.ival() != Self::smin() ensures ret.ival() == -self.ival();
    fn abs(self) -> (ret: Self::AbsType) ensures ret.ival() == (if self.ival() < 0 { -self.ival() } else { self.ival() });
    fn overflowing_mul(self, rhs: Self) -> (ret: (Self, bool)) ensures ret.1 <==> (self.ival() * rhs.ival() > Self::smax() || self.ival() * rhs.ival() < Self::smin()), !ret.1 ==> ret.0.ival() == self.ival() * rhs.ival();
    fn overflowing_sub(self, rhs: Self) -> (ret: (Self, bool)) ensures ret.1 <==> (self.ival() - rhs.ival() > Self::smax() || self.ival() - rhs.ival() < Self::smin()), !ret.1 ==> ret.0.ival() == self.ival() - rhs.ival();
}
// core::num::overflowing_*: assumed
pub assume_specification [<u8>::overflowing_mul] (x: u8, y: u8) -> (r: (u8, bool))
    ensures r.1 <==> !(u8::MIN <= x * y <= u8::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification [<u8>::overflowing_add] (x: u8, y: u8) -> (r: (u8, bool))
    ensures r.1 <==> !(u8::MIN <= x + y <= u8::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification [<u16>::overflowing_mul] (x: u16, y: u16) -> (r: (u16, bool))
    ensures r.1 <==> !(u16::MIN <= x * y <= u16::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification [<u16>::overflowing_add] (x: u16, y: u16) -> (r: (u16, bool))
    ensures r.1 <==> !(u16::MIN <= x + y <= u16::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification [<u32>::overflowing_mul] (x: u32, y: u32) -> (r: (u32, bool))
    ensures r.1 <==> !(u32::MIN <= x * y <= u32::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification [<u32>::overflowing_add] (x: u32, y: u32) -> (r: (u32, bool))
    ensures r.1 <==> !(u32::MIN <= x + y <= u32::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification [<u64>::overflowing_mul] (x: u64, y: u64) -> (r: (u64, bool))
    ensures r.1 <==> !(u64::MIN <= x * y <= u64::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification [<u64>::overflowing_add] (x: u64, y: u64) -> (r: (u64, bool))
    ensures r.1 <==> !(u64::MIN <= x + y <= u64::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification [<u128>::overflowing_mul] (x: u128, y: u128) -> (r: (u128, bool))
    ensures r.1 <==> !(u128::MIN <= x * y <= u128::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification [<u128>::overflowing_add] (x: u128, y: u128) -> (r: (u128, bool))
    ensures r.1 <==> !(u128::MIN <= x + y <= u128::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification [<i8>::overflowing_mul] (x: i8, y: i8) -> (r: (i8, bool))
    ensures r.1 <==> !(i8::MIN <= x * y <= i8::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification [<i8>::overflowing_sub] (x: i8, y: i8) -> (r: (i8, bool))
    ensures r.1 <==> !(i8::MIN <= x - y <= i8::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification [<i16>::overflowing_mul] (x: i16, y: i16) -> (r: (i16, bool))
    ensures r.1 <==> !(i16::MIN <= x * y <= i16::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification [<i16>::overflowing_sub] (x: i16, y: i16) -> (r: (i16, bool))
    ensures r.1 <==> !(i16::MIN <= x - y <= i16::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification [<i32>::overflowing_mul] (x: i32, y: i32) -> (r: (i32, bool))
    ensures r.1 <==> !(i32::MIN <= x * y <= i32::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification [<i32>::overflowing_sub] (x: i32, y: i32) -> (r: (i32, bool))
    ensures r.1 <==> !(i32::MIN <= x - y <= i32::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification [<i64>::overflowing_mul] (x: i64, y: i64) -> (r: (i64, bool))
    ensures r.1 <==> !(i64::MIN <= x * y <= i64::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification [<i64>::overflowing_sub] (x: i64, y: i64) -> (r: (i64, bool))
    ensures r.1 <==> !(i64::MIN <= x - y <= i64::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification [<i128>::overflowing_mul] (x: i128, y: i128) -> (r: (i128, bool))
    ensures r.1 <==> !(i128::MIN <= x * y <= i128::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification [<i128>::overflowing_sub] (x: i128, y: i128) -> (r: (i128, bool))
    ensures r.1 <==> !(i128::MIN <= x - y <= i128::MAX), !r.1 ==> r.0 == x - y;

// ---------------------------------------------------------------- stand-ins for std::ops and std::cmp operators (the trait declarations carry the specification; impl bodies come from /repo)
pub trait HasNv { spec fn hv(&self) -> NView; }
impl HasNv for Numeric { open spec fn hv(&self) -> NView { self.nv() } }
impl HasNv for NumericBuf { open spec fn hv(&self) -> NView { self.nv() } }
impl HasNv for &Numeric { open spec fn hv(&self) -> NView { (**self).nv() } }
impl HasNv for &NumericBuf { open spec fn hv(&self) -> NView { (**self).nv() } }
// the operator returns (does not panic): NaN for a NaN operand, else the exact result, which then fits the format
pub open spec fn op_is(a: NView, b: NView, r: NView, v: int, ds: int) -> bool { if a.nan || b.nan { r == nan_view() } else { fits(iabs(v), ds) && r.is(v, ds) } }
pub open spec fn sc(a: NView, b: NView) -> int { div_scale(a.digits, a.weight, a.dscale, b.digits, b.weight, b.dscale) }
pub open spec fn op_add(a: NView, b: NView, r: NView) -> bool { op_is(a, b, r, a.iv() + b.iv(), imax(a.dscale, b.dscale)) }
pub open spec fn op_sub(a: NView, b: NView, r: NView) -> bool { op_is(a, b, r, a.iv() - b.iv(), imax(a.dscale, b.dscale)) }
pub open spec fn op_mul(a: NView, b: NView, r: NView) -> bool { op_is(a, b, r, mul_iv(a.iv(), b.iv()), a.dscale + b.dscale) }
pub open spec fn op_div(a: NView, b: NView, r: NView) -> bool { op_is(a, b, r, rquot(a.iv(), b.iv(), sc(a, b)), sc(a, b)) && (a.nan || b.nan || b.mag() != 0) }
pub open spec fn op_rem(a: NView, b: NView, r: NView) -> bool { op_is(a, b, r, remv(a.iv(), b.iv()), imax(a.dscale, b.dscale)) && (a.nan || b.nan || b.mag() != 0) }
pub trait VAdd<Rhs: HasNv>: HasNv + Sized { fn add(self, other: Rhs) -> (ret: NumericBuf) requires self.hv().can(), other.hv().can() ensures op_add(self.hv(), other.hv(), ret.nv()); }
pub trait VAddAssign<Rhs: HasNv>: HasNv + Sized { fn add_assign(&mut self, other: Rhs) requires old(self).hv().can(), other.hv().can() ensures op_add(old(self).hv(), other.hv(), final(self).hv()); }
pub trait VSub<Rhs: HasNv>: HasNv + Sized { fn sub(self, other: Rhs) -> (ret: NumericBuf) requires self.hv().can(), other.hv().can() ensures op_sub(self.hv(), other.hv(), ret.nv()); }
pub trait VSubAssign<Rhs: HasNv>: HasNv + Sized { fn sub_assign(&mut self, other: Rhs) requires old(self).hv().can(), other.hv().can() ensures op_sub(old(self).hv(), other.hv(), final(self).hv()); }
pub trait VMul<Rhs: HasNv>: HasNv + Sized { fn mul(self, other: Rhs) -> (ret: NumericBuf) requires self.hv().can(), other.hv().can() ensures op_mul(self.hv(), other.hv(), ret.nv()); }
pub trait VMulAssign<Rhs: HasNv>: HasNv + Sized { fn mul_assign(&mut self, other: Rhs) requires old(self).hv().can(), other.hv().can() ensures op_mul(old(self).hv(), other.hv(), final(self).hv()); }
pub trait VDiv<Rhs: HasNv>: HasNv + Sized { fn div(self, other: Rhs) -> (ret: NumericBuf) requires self.hv().can(), other.hv().can() ensures op_div(self.hv(), other.hv(), ret.nv()); }
pub trait VDivAssign<Rhs: HasNv>: HasNv + Sized { fn div_assign(&mut self, other: Rhs) requires old(self).hv().can(), other.hv().can() ensures op_div(old(self).hv(), other.hv(), final(self).hv()); }
pub trait VRem<Rhs: HasNv>: HasNv + Sized { fn rem(self, other: Rhs) -> (ret: NumericBuf) requires self.hv().can(), other.hv().can() ensures op_rem(self.hv(), other.hv(), ret.nv()); }
pub trait VRemAssign<Rhs: HasNv>: HasNv + Sized { fn rem_assign(&mut self, other: Rhs) requires old(self).hv().can(), other.hv().can() ensures op_rem(old(self).hv(), other.hv(), final(self).hv()); }
pub trait VNeg: HasNv + Sized { fn neg(self) -> (ret: NumericBuf) requires self.hv().can() ensures self.hv().nan ==> ret.nv() == nan_view(), !self.hv().nan ==> ret.nv().is(-self.hv().iv(), self.hv().dscale); }
pub trait VPartialEq<Rhs: HasNv>: HasNv { fn eq(&self, other: &Rhs) -> (ret: bool) requires self.hv().can(), other.hv().can() ensures ret == (cmp_view(self.hv(), other.hv()) == Ordering::Equal); }
pub trait VPartialOrd<Rhs: HasNv>: HasNv { fn partial_cmp(&self, other: &Rhs) -> (ret: Option<Ordering>) requires self.hv().can(), other.hv().can() ensures ret == Some(cmp_view(self.hv(), other.hv())); }
pub trait VOrd: HasNv { fn cmp(&self, other: &Self) -> (ret: Ordering) requires self.hv().can(), other.hv().can() ensures ret == cmp_view(self.hv(), other.hv()); }
// the derived PartialEq of core::cmp::Ordering: assumed
pub assume_specification [<Ordering as PartialEq>::eq] (x: &Ordering, y: &Ordering) -> (r: bool) ensures r == (*x == *y);
