// ---------------------------------------------------------------- decimal text, as bytes
pub open spec fn dch(d: int) -> u8 { (48 + d) as u8 }
// decimal digits of n >= 0 without leading zeros
pub open spec fn dec(n: int) -> Seq<u8> decreases n { if n < 10 { seq![dch(n)] } else { dec(n / 10).push(dch(n % 10)) } }
// the last k decimal digits of n
pub open spec fn padn(n: int, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { padn(n / 10, k - 1).push(dch(n % 10)) } }
pub open spec fn sb(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
pub open spec fn nan_text() -> Seq<u8> { seq![78u8, 97u8, 78u8] }
// exact decimal expansion with v.dscale fractional digits
pub open spec fn text(v: NView) -> Seq<u8> { if v.nan { nan_text() } else { ftext(v.sign == 0x4000, v.mag(), v.dscale) } }
pub open spec fn ftext(neg: bool, m: int, ds: int) -> Seq<u8> {
    (if neg { seq![45u8] } else { Seq::empty() }) + dec(m / p(KK)) + (if ds > 0 { seq![46u8] + padn(m / U(ds), ds) } else { Seq::empty() })
}
// what write() accepts: normalised (leading digit nonzero), not necessarily canonical
pub open spec fn can_write(v: &NumericVar) -> bool { v.sign == 0xC000 || (v.st() && v.norm()) }

// ---- core::fmt: a writer appends; formatting of integers with the crate's format strings.  Assumed.
pub struct FmtError;
pub trait FmtWrite: Sized {
    spec fn out(&self) -> Seq<u8>;
    // the writer itself never fails
    spec fn inf(&self) -> bool;
    fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures final(self).inf() == old(self).inf(), old(self).inf() ==> r is Ok, r is Ok ==> final(self).out() == old(self).out() + sb(s@);
    fn write_char(&mut self, c: char) -> (r: Result<(), FmtError>) requires c as u32 <= 127 ensures final(self).inf() == old(self).inf(), old(self).inf() ==> r is Ok, r is Ok ==> final(self).out() == old(self).out().push(c as u8);
}
// "NaN"
#[verifier::external_body] pub fn vwrite_NaN<W: FmtWrite>(f: &mut W) -> (r: Result<(), FmtError>)
    ensures final(f).inf() == old(f).inf(), old(f).inf() ==> r is Ok, r is Ok ==> final(f).out() == old(f).out() + nan_text() { unimplemented!() }
// "{}" of a non-negative i16
#[verifier::external_body] pub fn vwrite__7b_7d<W: FmtWrite>(f: &mut W, x: &i16) -> (r: Result<(), FmtError>) requires *x >= 0
    ensures final(f).inf() == old(f).inf(), old(f).inf() ==> r is Ok, r is Ok ==> final(f).out() == old(f).out() + dec(*x as int) { unimplemented!() }
// "{:>0width$}" of a non-negative i16 that fits in width digits
#[verifier::external_body] pub fn vwrite__7b_3a_3e0width_24_7d<W: FmtWrite>(f: &mut W, x: &i16, width: &usize) -> (r: Result<(), FmtError>) requires *x >= 0, (*x as int) < t(*width as int)
    ensures final(f).inf() == old(f).inf(), old(f).inf() ==> r is Ok, r is Ok ==> final(f).out() == old(f).out() + padn(*x as int, *width as int) { unimplemented!() }
#[verifier::external_body] pub struct Formatter { x: u8 }
impl FmtWrite for Formatter {
    uninterp spec fn out(&self) -> Seq<u8>;
    uninterp spec fn inf(&self) -> bool;
    #[verifier::external_body] fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) { unimplemented!() }
    #[verifier::external_body] fn write_char(&mut self, c: char) -> (r: Result<(), FmtError>) { unimplemented!() }
}
// Range::step_by: the next element, or the end
pub fn vstep(it: i32, hi: i32, st: usize) -> (r: i32) requires 0 <= it < hi, 0 < st <= 0x7fff_ffff ensures r == (if it + st >= hi { hi as int } else { it + st }) { if (hi - it) as usize <= st { hi } else { it + st as i32 } }
// std::string::String
#[verifier::external_body] pub struct String { x: u8 }
impl String {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn from(s: &str) -> (r: String) ensures r.b() == sb(s@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.b().len() { unimplemented!() }
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b() { unimplemented!() }
    #[verifier::external_body] pub fn find(&self, c: char) -> (r: Option<usize>) requires c as u32 <= 127 ensures r is Some <==> exists|i: int| 0 <= i < self.b().len() && self.b()[i] == c as u8 { unimplemented!() }
    // the length must be a character boundary: all bytes here are ASCII
    #[verifier::external_body] pub fn truncate(&mut self, n: usize) requires forall|i: int| 0 <= i < old(self).b().len() ==> old(self).b()[i] < 128
        ensures final(self).b() == (if n <= old(self).b().len() { old(self).b().subrange(0, n as int) } else { old(self).b() }) { unimplemented!() }
}
impl<'a> NumericVar<'a> {
    // core's ToString: the Display output into a String, whose writer never fails
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) requires can_write(self) ensures r.b() == text(self.view()) { unimplemented!() }
}
pub trait VDisplay { spec fn tv(&self) -> NView; spec fn tok(&self) -> bool;
    fn fmt(&self, f: &mut Formatter) -> (ret: Result<(), FmtError>) requires self.tok()
        ensures final(f).inf() == old(f).inf(), old(f).inf() ==> ret is Ok, ret is Ok ==> final(f).out() == old(f).out() + text(self.tv()); }

// ---- lemmas
pub proof fn lemma_divdiv(n: int, j: int) requires n >= 0, j >= 1 ensures (n / t(j - 1)) / 10 == n / t(j), (n / 10) / t(j - 1) == n / t(j), t(j) == 10 * t(j - 1)
{
    lemma_tS(j); let u = t(j - 1);
    vstd::arithmetic::div_mod::lemma_div_denominator(n, u, 10); vstd::arithmetic::div_mod::lemma_div_denominator(n, 10, u); assert(u * 10 == 10 * u);
}
pub proof fn lemma_snoc(a: int, b: int, j: int) requires a >= 0, j >= 1, 0 <= b < t(j)
    ensures (a * t(j) + b) / 10 == a * t(j - 1) + b / 10, (a * t(j) + b) % 10 == b % 10, 0 <= b / 10 < t(j - 1)
{
    lemma_tS(j); let u = t(j - 1); let q = b / 10; let r = b % 10;
    assert(a * (10 * u) == 10 * (a * u)) by (nonlinear_arith);
    lemma_div_unique(a * t(j) + b, 10, a * u + q, r);
}
pub proof fn lemma_padn_append(a: int, b: int, k: int, j: int) requires a >= 0, k >= 0, j >= 0, 0 <= b < t(j) ensures padn(a * t(j) + b, k + j) =~= padn(a, k) + padn(b, j) decreases j
{
    if j == 0 { lemma_t0(); assert(a * 1 + b == a); } else { lemma_snoc(a, b, j); lemma_padn_append(a, b / 10, k, j - 1); }
}
pub proof fn lemma_dec_append(a: int, b: int, j: int) requires a >= 1, j >= 0, 0 <= b < t(j) ensures dec(a * t(j) + b) =~= dec(a) + padn(b, j) decreases j
{
    if j == 0 { lemma_t0(); assert(a * 1 + b == a); } else {
        lemma_snoc(a, b, j); lemma_dec_append(a, b / 10, j - 1); lemma_tpos(j); lemma_tS(j); let u = t(j);
        assert(a * u >= 10) by (nonlinear_arith) requires a >= 1, u >= 10;
    }
}
pub proof fn lemma_val_neg(s: Seq<i16>, i: int) requires i < 0 ensures val(s, i) == 0 { lemma_lo0(s, i, i + 1); }
// the digits down to weight -g
pub proof fn lemma_text_cut(s: Seq<i16>, w: int, g: int) requires digs(s), -99000 <= w <= 99000, 0 <= g <= 99000 ensures V(s, w) / p(KK - g) == val(s, w + g), val(s, w + g) >= 0
{
    let e = p(KK - g); lemma_ppos(KK - g);
    if w + 1 + g >= 0 { lemma_val_cut(s, w + KK, w + 1 + g); lemma_lo_bounds(s, w + KK, KK - g); lemma_val_bounds(s, w + g); lemma_div_unique(V(s, w), e, val(s, w + g), lo(s, w + KK, KK - g)); }
    else { lemma_val_neg(s, w + g); lemma_val_bounds(s, w + KK); lemma_pmono(w + KK + 1, KK - g); lemma_div_unique(V(s, w), e, 0, V(s, w)); }
}
pub proof fn lemma_text_frac(s: Seq<i16>, w: int, g: int, k: int) requires digs(s), -99000 <= w <= 99000, 0 <= g <= 98000, 1 <= k <= 4
    ensures V(s, w) / U(4 * g + k) == val(s, w + g) * t(k) + at(s, w + g + 1) / t(4 - k), 0 <= at(s, w + g + 1) / t(4 - k) < t(k), val(s, w + g) >= 0
{
    let d = at(s, w + g + 1); let u = t(4 - k); let e = p(KK - g - 1); let v = val(s, w + g); lemma_t0(); lemma_tpos(4 - k); lemma_ppos(KK - g - 1);
    lemma_text_cut(s, w, g); lemma_text_cut(s, w, g + 1); lemma_pt(KK - g - 1); lemma_tadd(4 * (KK - g - 1), 4 - k);
    assert(U(4 * g + k) == e * u);
    lemma_val_bounds(s, w + KK);
    vstd::arithmetic::div_mod::lemma_div_denominator(V(s, w), e, u);
    assert(val(s, w + g + 1) == v * 10000 + d) by { if w + g + 1 >= 0 { lemma_val_step(s, w + g + 1); } else { lemma_val_neg(s, w + g + 1); lemma_val_neg(s, w + g); } }
    lemma_tadd(k, 4 - k); let x = t(k);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, u); let q = d / u; let r = d % u;
    assert(v * (x * u) == (v * x) * u) by (nonlinear_arith);
    assert((v * x + q) * u == (v * x) * u + u * q) by (nonlinear_arith);
    lemma_div_unique(v * 10000 + d, u, v * x + q, r);
    if k == 4 { assert(d / 1 == d); } else if k == 3 { } else if k == 2 { } else { }
}

// ---- normalized text
pub open spec fn strip0(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() > 0 && b.last() == 48 { strip0(b.drop_last()) } else { b } }
pub open spec fn ndot(b: Seq<u8>) -> Seq<u8> { if b.len() > 0 && b.last() == 46 { b.drop_last() } else { b } }
// the text without trailing fractional zeros or a trailing point
pub open spec fn ntext(v: NView) -> Seq<u8> { if !v.nan && v.dscale > 0 { ndot(strip0(text(v))) } else { text(v) } }
pub open spec fn has(b: Seq<u8>, x: u8) -> bool { exists|i: int| 0 <= i < b.len() && b[i] == x }
pub open spec fn digitc(x: u8) -> bool { 48 <= x <= 57 }
pub proof fn lemma_dec_chars(n: int) requires n >= 0 ensures dec(n).len() >= 1, forall|i: int| 0 <= i < dec(n).len() ==> digitc(#[trigger] dec(n)[i]) decreases n { if n >= 10 { lemma_dec_chars(n / 10); } }
pub proof fn lemma_padn_chars(n: int, k: int) requires n >= 0, k >= 0 ensures padn(n, k).len() == k, forall|i: int| 0 <= i < k ==> digitc(#[trigger] padn(n, k)[i]) decreases k { if k > 0 { lemma_padn_chars(n / 10, k - 1); } }
pub open spec fn ipart(neg: bool, m: int) -> Seq<u8> { (if neg { seq![45u8] } else { Seq::empty() }) + dec(m / p(KK)) }
// integer part, point, fraction; the point is the only one
pub proof fn lemma_ftext(neg: bool, m: int, ds: int) requires m >= 0, 0 <= ds <= 200000
    ensures ds > 0 ==> ftext(neg, m, ds) =~= ipart(neg, m).push(46u8) + padn(m / U(ds), ds), ds <= 0 ==> ftext(neg, m, ds) =~= ipart(neg, m), m / U(ds) >= 0, m / p(KK) >= 0, padn(m / U(ds), ds).len() == ds,
        forall|i: int| 0 <= i < ipart(neg, m).len() ==> #[trigger] ipart(neg, m)[i] == 45 || digitc(ipart(neg, m)[i]),
        forall|i: int| 0 <= i < ds ==> digitc(#[trigger] padn(m / U(ds), ds)[i]),
        forall|i: int| 0 <= i < ftext(neg, m, ds).len() ==> (#[trigger] ftext(neg, m, ds)[i] == 45 || digitc(ftext(neg, m, ds)[i]) || (i == ipart(neg, m).len() && ds > 0 && ftext(neg, m, ds)[i] == 46)),
        ftext(neg, m, ds).len() == ipart(neg, m).len() + (if ds > 0 { ds + 1 } else { 0 }), ipart(neg, m).len() >= 1,
        has(ftext(neg, m, ds), 46) <==> ds > 0,
{
    lemma_U(ds); lemma_ppos(KK);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, U(ds)); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, p(KK));
    lemma_dec_chars(m / p(KK)); lemma_padn_chars(m / U(ds), ds);
    let x = ftext(neg, m, ds); let a = ipart(neg, m);
    if ds > 0 { assert(x =~= a.push(46u8) + padn(m / U(ds), ds)); assert(x[a.len() as int] == 46); } else { assert(x =~= a); }
}
pub proof fn lemma_strip0_keep(b: Seq<u8>, i: int) requires 0 <= i < b.len(), b[i] != 48 ensures i < strip0(b).len() <= b.len(), strip0(b)[i] == b[i] decreases b.len()
{ if b.last() == 48 { assert(b.drop_last()[i] == b[i]); lemma_strip0_keep(b.drop_last(), i); } }
// what strip0 removes are zeros
pub proof fn lemma_strip0_zeros(b: Seq<u8>) ensures strip0(b).len() <= b.len(), strip0(b) == b.subrange(0, strip0(b).len() as int), forall|i: int| strip0(b).len() <= i < b.len() ==> b[i] == 48, strip0(b).len() > 0 ==> strip0(b).last() != 48 decreases b.len()
{
    if b.len() > 0 && b.last() == 48 {
        let c = b.drop_last(); lemma_strip0_zeros(c); let n = strip0(c).len() as int;
        assert(b.subrange(0, n) =~= c.subrange(0, n));
        assert forall|i: int| n <= i < b.len() implies b[i] == 48 by { if i < c.len() { assert(c[i] == b[i]); } }
    } else { assert(b =~= b.subrange(0, b.len() as int)); }
}
pub proof fn lemma_strip0_step(b: Seq<u8>, i: int) requires 0 <= i < b.len() ensures b[i] == 48 ==> strip0(b.subrange(0, i + 1)) == strip0(b.subrange(0, i)), b[i] != 48 ==> strip0(b.subrange(0, i + 1)) == b.subrange(0, i + 1)
{ let c = b.subrange(0, i + 1); assert(c.last() == b[i]); assert(c.drop_last() =~= b.subrange(0, i)); }
// writing the same value with more fractional digits does not change the stripped text
pub proof fn lemma_strip_lift(neg: bool, m: int, ds: int, d: int) requires m >= 0, 0 <= ds <= d <= 200000, dvd(U(ds), m), d > 0
    ensures ndot(strip0(ftext(neg, m, d))) == (if ds > 0 { ndot(strip0(ftext(neg, m, ds))) } else { ftext(neg, m, ds) }) decreases d
{
    if d > ds {
        let e = d - 1; lemma_scale_up(m, ds, e); lemma_U(e); lemma_U(d); lemma_dvd_i(U(e), m); let q = m / U(e); let u = U(d);
        assert(U(e) == 10 * u) by { lemma_tS(4 * KK - e); }
        assert(q * (10 * u) == (10 * q) * u) by (nonlinear_arith);
        lemma_div_unique(m, u, 10 * q, 0);
        vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, U(e));
        lemma_ftext(neg, m, d); lemma_ftext(neg, m, e);
        let x = ftext(neg, m, d); let y = ftext(neg, m, e);
        assert((10 * q) / 10 == q && (10 * q) % 10 == 0);
        assert(padn(10 * q, d) =~= padn(q, e).push(48));
        assert(x.last() == 48);
        if e > 0 { assert(x.drop_last() =~= y); lemma_strip_lift(neg, m, ds, e); }
        else { assert(x.drop_last() =~= y.push(46)); assert(strip0(y.push(46)) == y.push(46)); assert(y.push(46).drop_last() =~= y); assert(ds == 0); }
    }
}
pub proof fn lemma_dec_inj(a: int, b: int) requires a >= 0, b >= 0, dec(a) == dec(b) ensures a == b decreases a
{
    lemma_dec_chars(a / 10); lemma_dec_chars(b / 10);
    assert(dec(a).last() == dch(a % 10) && dec(b).last() == dch(b % 10));
    assert(dec(a).len() == (if a < 10 { 1 } else { dec(a / 10).len() + 1 })); assert(dec(b).len() == (if b < 10 { 1 } else { dec(b / 10).len() + 1 }));
    if a >= 10 && b >= 10 { assert(dec(a).drop_last() =~= dec(a / 10)); assert(dec(b).drop_last() =~= dec(b / 10)); lemma_dec_inj(a / 10, b / 10); }
}
pub proof fn lemma_padn_inj(a: int, b: int, k: int) requires a >= 0, b >= 0, k >= 0, padn(a, k) == padn(b, k) ensures a % t(k) == b % t(k) decreases k
{
    if k == 0 { lemma_t0(); } else {
        assert(padn(a, k).last() == dch(a % 10) && padn(b, k).last() == dch(b % 10));
        assert(padn(a, k).drop_last() =~= padn(a / 10, k - 1)); assert(padn(b, k).drop_last() =~= padn(b / 10, k - 1));
        lemma_padn_inj(a / 10, b / 10, k - 1); lemma_tS(k); let u = t(k - 1);
        vstd::arithmetic::div_mod::lemma_mod_breakdown(a, 10, u); vstd::arithmetic::div_mod::lemma_mod_breakdown(b, 10, u);
    }
}
// stripped texts are equal only for equal texts of the same scale
pub proof fn lemma_unstrip(x1: Seq<u8>, a1: int, x2: Seq<u8>, a2: int, d: int)
    requires 0 <= a1 < x1.len(), 0 <= a2 < x2.len(), x1.len() == a1 + 1 + d, x2.len() == a2 + 1 + d, forall|i: int| 0 <= i < x1.len() ==> (#[trigger] x1[i] == 46 <==> i == a1), forall|i: int| 0 <= i < x2.len() ==> (#[trigger] x2[i] == 46 <==> i == a2),
        ndot(strip0(x1)) == ndot(strip0(x2)),
    ensures a1 == a2, x1 == x2
{
    assert(x1[a1] == 46 && x2[a2] == 46);
    lemma_strip0_keep(x1, a1); lemma_strip0_keep(x2, a2); lemma_strip0_zeros(x1); lemma_strip0_zeros(x2);
    let z1 = strip0(x1); let z2 = strip0(x2); let y = ndot(z1);
    assert(forall|i: int| 0 <= i < z1.len() ==> z1[i] == x1[i]); assert(forall|i: int| 0 <= i < z2.len() ==> z2[i] == x2[i]);
    if z1.last() == 46 {
        assert(x1[z1.len() - 1] == 46); assert(a1 == z1.len() - 1);
        if z2.last() != 46 { assert(a2 < z2.len() - 1 || a2 == z2.len() - 1); assert(z2[a2] == 46); assert(y[a2] == z2[a2]); assert(x1[a2] == 46); assert(false); }
        assert(z1 =~= y.push(46)); assert(z2 =~= y.push(46));
    } else if z2.last() == 46 { assert(x2[z2.len() - 1] == 46); assert(z1[a1] == 46); assert(y[a1] == z1[a1]); assert(x2[a1] == 46); assert(false); }
    assert(z1 == z2); assert(x2[a1] == z2[a1]); assert(a1 == a2);
    assert forall|i: int| 0 <= i < x1.len() implies x1[i] == x2[i] by { if i < z1.len() { assert(z1[i] == x1[i]); assert(z2[i] == x2[i]); } }
    assert(x1 =~= x2);
}
pub proof fn lemma_ipart_inj(n1: bool, m1: int, n2: bool, m2: int) requires m1 / p(KK) >= 0, m2 / p(KK) >= 0, ipart(n1, m1) == ipart(n2, m2) ensures n1 == n2, m1 / p(KK) == m2 / p(KK)
{
    let i1 = ipart(n1, m1); let i2 = ipart(n2, m2); let d1 = dec(m1 / p(KK)); let d2 = dec(m2 / p(KK)); lemma_dec_chars(m1 / p(KK)); lemma_dec_chars(m2 / p(KK));
    assert(digitc(d1[0]) && digitc(d2[0]));
    if n1 != n2 { assert(i1[0] == i2[0]); assert(false); }
    if n1 { assert(d1 =~= i1.subrange(1, i1.len() as int)); assert(d2 =~= i2.subrange(1, i2.len() as int)); } else { assert(d1 =~= i1); assert(d2 =~= i2); }
    lemma_dec_inj(m1 / p(KK), m2 / p(KK));
}
// a value on scale d is determined by its text
pub proof fn lemma_ftext_inj(n1: bool, m1: int, n2: bool, m2: int, d: int) requires m1 >= 0, m2 >= 0, 0 < d <= 200000, dvd(U(d), m1), dvd(U(d), m2), ndot(strip0(ftext(n1, m1, d))) == ndot(strip0(ftext(n2, m2, d)))
    ensures n1 == n2, m1 == m2
{
    let x1 = ftext(n1, m1, d); let x2 = ftext(n2, m2, d); let i1 = ipart(n1, m1); let i2 = ipart(n2, m2); let a1 = i1.len() as int; let a2 = i2.len() as int;
    let f1 = padn(m1 / U(d), d); let f2 = padn(m2 / U(d), d);
    lemma_ftext(n1, m1, d); lemma_ftext(n2, m2, d);
    assert(x1[a1] == 46 && x2[a2] == 46);
    lemma_unstrip(x1, a1, x2, a2, d);
    assert(i1 =~= x1.subrange(0, a1)); assert(i2 =~= x2.subrange(0, a2));
    assert(f1 =~= x1.subrange(a1 + 1, x1.len() as int)); assert(f2 =~= x2.subrange(a2 + 1, x2.len() as int));
    lemma_ipart_inj(n1, m1, n2, m2);
    lemma_same_frac(m1, m2, d);
}
pub proof fn lemma_same_frac(m1: int, m2: int, d: int) requires m1 >= 0, m2 >= 0, 0 < d <= 200000, dvd(U(d), m1), dvd(U(d), m2), m1 / p(KK) == m2 / p(KK), padn(m1 / U(d), d) == padn(m2 / U(d), d) ensures m1 == m2
{
    lemma_U(d); let q1 = m1 / U(d); let q2 = m2 / U(d);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m1, U(d)); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m2, U(d));
    lemma_padn_inj(q1, q2, d); lemma_tpos(d); lemma_tadd(4 * KK - d, d); lemma_pt(KK);
    vstd::arithmetic::div_mod::lemma_div_denominator(m1, U(d), t(d)); vstd::arithmetic::div_mod::lemma_div_denominator(m2, U(d), t(d));
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q1, t(d)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q2, t(d));
    lemma_dvd_i(U(d), m1); lemma_dvd_i(U(d), m2);
}
// C09: the normalized text is equal for two numerics exactly when they compare equal
pub proof fn lemma_ntext_eq(a: NView, b: NView) requires a.can(), b.can() ensures (ntext(a) == ntext(b)) <==> (cmp_view(a, b) == Ordering::Equal)
{
    lemma_can_facts(a); lemma_can_facts(b);
    if a.nan && b.nan { } else if a.nan || b.nan {
        let v = if a.nan { b } else { a }; let neg = v.sign == 0x4000;
        lemma_ftext(neg, v.mag(), v.dscale); let x = ftext(neg, v.mag(), v.dscale);
        assert(text(v) == x);
        if v.dscale > 0 { lemma_strip0_zeros(x); let z = strip0(x); if ntext(v).len() > 0 { assert(ntext(v)[0] == x[0]); } }
        assert(ntext(v) != nan_text()) by { assert(nan_text()[0] == 78); assert(nan_text().len() == 3); }
    } else {
        let d = imax(imax(a.dscale, b.dscale), 1); let na = a.sign == 0x4000; let nb = b.sign == 0x4000;
        lemma_strip_lift(na, a.mag(), a.dscale, d); lemma_strip_lift(nb, b.mag(), b.dscale, d);
        lemma_scale_up(a.mag(), a.dscale, d); lemma_scale_up(b.mag(), b.dscale, d);
        if ntext(a) == ntext(b) { lemma_ftext_inj(na, a.mag(), nb, b.mag(), d); }
        if a.iv() == b.iv() { assert(na == nb && a.mag() == b.mag()); }
    }
}

// ---- scientific notation
pub assume_specification [i32::div_euclid] (a: i32, b: i32) -> (r: i32) requires b > 0 ensures r == a as int / b as int;
pub assume_specification [i32::rem_euclid] (a: i32, b: i32) -> (r: i32) requires b > 0 ensures r == a as int % b as int;
// number of decimal digits, number of trailing decimal zeros of a base-10000 digit
pub open spec fn ndg(d: int) -> int { if d < 10 { 1 } else if d < 100 { 2 } else if d < 1000 { 3 } else { 4 } }
pub open spec fn tzd(d: int) -> int { if d % 10 != 0 { 0 } else if d % 100 != 0 { 1 } else if d % 1000 != 0 { 2 } else { 3 } }
// (d as f64).log10() as i32 on a base-10000 digit: assumed (floating point); all 9999 cases were evaluated, see DESIGN.md
#[verifier::external_body] pub fn vlog10_i32(d: i16) -> (r: i32) requires 1 <= d <= 9999 ensures r == ndg(d as int) - 1 { unimplemented!() }
// {:<+03} of an i32: sign, at least two digits
pub open spec fn expfmt(e: int) -> Seq<u8> { let a = if e < 0 { -e } else { e }; seq![if e < 0 { 45u8 } else { 43u8 }] + (if a < 10 { seq![48u8, dch(a)] } else { dec(a) }) }
pub open spec fn scifmt(v: NView, e: int, upper: bool) -> Seq<u8> { text(v).push(if upper { 69u8 } else { 101u8 }) + expfmt(e) }
#[verifier::external_body] pub fn vwrite__7b_7de_7b_3a_3c_2b03_7d<'a, W: FmtWrite>(f: &mut W, x: &NumericVar<'a>, e: &i32) -> (r: Result<(), FmtError>) requires can_write(x), -1_000_000 <= *e <= 1_000_000
    ensures final(f).inf() == old(f).inf(), old(f).inf() ==> r is Ok, r is Ok ==> final(f).out() == old(f).out() + scifmt(x.view(), *e as int, false) { unimplemented!() }
#[verifier::external_body] pub fn vwrite__7b_7dE_7b_3a_3c_2b03_7d<'a, W: FmtWrite>(f: &mut W, x: &NumericVar<'a>, e: &i32) -> (r: Result<(), FmtError>) requires can_write(x), -1_000_000 <= *e <= 1_000_000
    ensures final(f).inf() == old(f).inf(), old(f).inf() ==> r is Ok, r is Ok ==> final(f).out() == old(f).out() + scifmt(x.view(), *e as int, true) { unimplemented!() }
// decimal exponent of the first nonzero digit; scale of the significand that keeps every digit
pub open spec fn sci_e(s: Seq<i16>, w: int) -> int { if s.len() == 0 { 0 } else { 4 * w + ndg(s[0] as int) - 1 } }
pub open spec fn sci_z(s: Seq<i16>, w: int) -> int { 4 * (KK + w + 1 - s.len()) + tzd(s.last() as int) }
pub open spec fn sci_sc(s: Seq<i16>) -> int { if s.len() == 0 { 0 } else { 4 * (s.len() - 1) + ndg(s[0] as int) - 1 - tzd(s.last() as int) } }
// sg * 10^e == m
pub open spec fn times10(sg: int, e: int, m: int) -> bool { if e >= 0 { sg * t(e) == m } else { sg == m * t(-e) } }
// the observable property: significand times ten to the exponent is the value, one nonzero digit before the point, no trailing zeros
pub open spec fn sci_parts(m: int, e: int, sg: int, sc: int) -> bool {
    &&& times10(sg, e, m) && 0 <= sc <= 150000 && dvd(U(sc), sg)
    &&& m > 0 ==> t(4 * KK) <= sg < 10 * t(4 * KK) && (sc > 0 ==> (sg / U(sc)) % 10 != 0)
    &&& m == 0 ==> sg == 0 && e == 0 && sc == 0
}
pub open spec fn sci_ok(v: NView, upper: bool, o: Seq<u8>) -> bool {
    if v.nan { o == nan_text() } else { exists|e: int, sg: int, sc: int| #[trigger] sci_parts(v.mag(), e, sg, sc) && o == ftext(v.sign == 0x4000, sg, sc).push(if upper { 69u8 } else { 101u8 }) + expfmt(e) }
}
pub open spec fn sci_div(m: int, e: int, sc: int) -> int { quot_round(m, t(4 * KK + e), sc) }
pub proof fn lemma_tdiv(d: int) requires 1 <= d <= 9999 ensures t(ndg(d) - 1) <= d < t(ndg(d)), d % t(tzd(d)) == 0, (d / t(tzd(d))) % 10 != 0, 0 <= tzd(d) < ndg(d) <= 4
{
    lemma_t0();
    if tzd(d) == 1 { assert((d / 10) % 10 != 0) by { if (d / 10) % 10 == 0 { assert(d % 100 == 0); } } }
    else if tzd(d) == 2 { assert((d / 100) % 10 != 0) by { if (d / 100) % 10 == 0 { assert(d % 1000 == 0); } } }
    else if tzd(d) == 3 { assert((d / 1000) % 10 != 0); } else { assert(d / 1 == d); }
}
pub proof fn lemma_sci_bounds(s: Seq<i16>, w: int) requires digs(s), s.len() > 0, s[0] != 0, -99000 <= w <= 99000
    ensures t(4 * KK + sci_e(s, w)) <= V(s, w) < t(4 * KK + sci_e(s, w) + 1)
{
    let d = s[0] as int; let k = ndg(d); lemma_tdiv(d); lemma_val_first(s, w + KK); lemma_pt(w + KK); let P = p(w + KK); lemma_ppos(w + KK);
    lemma_tadd(4 * (w + KK), k - 1); lemma_tadd(4 * (w + KK), k); let a = t(k - 1); let b = t(k);
    assert(d * P >= P * a) by (nonlinear_arith) requires d >= a, P >= 1;
    assert((d + 1) * P <= P * b) by (nonlinear_arith) requires d + 1 <= b, P >= 1;
}
pub proof fn lemma_sci_zeros(s: Seq<i16>, w: int) requires digs(s), s.len() > 0, s.last() != 0, -99000 <= w <= 99000, s.len() - 1 - w <= 99000
    ensures dvd(t(sci_z(s, w)), V(s, w)), (V(s, w) / t(sci_z(s, w))) % 10 != 0, sci_z(s, w) >= 0, V(s, w) > 0
{
    let n = s.len() as int; let k = KK + w + 1 - n; let d = s.last() as int; let z = tzd(d); lemma_tdiv(d); lemma_tpos(z); lemma_tpos(4 * k + z);
    let a = val(s, n - 2); let u = t(z); let q = d / u; let r = t(4 - z); let r1 = t(3 - z); let h = a * r + q; let T = t(4 * k + z); let m = V(s, w);
    assert(a >= 0 && m == (10000 * a + d) * p(k)) by { lemma_val_step(s, n - 1); lemma_val_shift(s, n - 1, k); lemma_val_bounds(s, n - 2); assert(at(s, n - 1) == d); assert(a * 10000 == 10000 * a); }
    assert(u * q == d) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, u); }
    assert(u * r == 10000 && r == 10 * r1 && r1 >= 1) by { lemma_t0(); lemma_tadd(z, 4 - z); lemma_tS(4 - z); lemma_tpos(3 - z); }
    assert(T == p(k) * u) by { lemma_pt(k); lemma_tadd(4 * k, z); }
    lemma_sci_zeros2(a, d, u, q, r, r1, p(k), m, h, T);
}
pub proof fn lemma_sci_zeros2(a: int, d: int, u: int, q: int, r: int, r1: int, pk: int, m: int, h: int, T: int)
    requires a >= 0, m == (10000 * a + d) * pk, u * q == d, u * r == 10000, r == 10 * r1, r1 >= 1, T == pk * u, h == a * r + q, q >= 1, T >= 1
    ensures dvd(T, m), m / T == h, h % 10 == q % 10, h >= 1, m >= 1
{
    lemma_dvd_mul(T, h);
    assert(h * (pk * u) == (a * (u * r) + u * q) * pk) by (nonlinear_arith) requires h == a * r + q; assert(a * 10000 == 10000 * a);
    let g = a * r1; assert(a * r == 10 * g) by (nonlinear_arith) requires g == a * r1, r == 10 * r1; assert(g >= 0) by (nonlinear_arith) requires g == a * r1, a >= 0, r1 >= 1;
    assert(h * T >= 1) by (nonlinear_arith) requires h >= 1, T >= 1;
}
pub proof fn lemma_sci(s: Seq<i16>, w: int) requires digs(s), s.len() > 0, s[0] != 0, s.last() != 0, -40000 <= w <= 40000, s.len() <= 37000, s.len() - 1 - w <= 45000
    ensures sci_parts(V(s, w), sci_e(s, w), sci_div(V(s, w), sci_e(s, w), sci_sc(s)), sci_sc(s))
{
    let m = V(s, w); let e = sci_e(s, w); let z = sci_z(s, w); let sc = sci_sc(s); let n = s.len() as int;
    lemma_sci_bounds(s, w); lemma_sci_zeros(s, w); lemma_tdiv(s[0] as int); lemma_tdiv(s.last() as int);
    assert(sc == 4 * KK + e - z);
    let y = t(4 * KK + e); let u = U(sc); let T = t(z); let q = m / T; lemma_tpos(4 * KK + e); lemma_U(sc); lemma_tpos(z); lemma_dvd_i(T, m);
    lemma_tadd(4 * KK + e, 4 * KK - sc); lemma_tadd(4 * KK, z); lemma_pt(KK); lemma_tpos(4 * KK);
    let P = p(KK);
    assert(y * u == P * T);
    assert(m * P == q * (y * u)) by (nonlinear_arith) requires m == q * T, y * u == P * T;
    assert(0 <= y * (u / 2) < y * u) by (nonlinear_arith) requires y >= 1, u >= 1, u == 2 * (u / 2);
    lemma_div_unique(m * P + y * (u / 2), y * u, q, y * (u / 2));
    let sg = sci_div(m, e, sc);
    assert(sg == q * u);
    lemma_dvd_mul(u, q);
    if e >= 0 {
        lemma_tadd(z - e, e); let E = t(e); lemma_tpos(e);
        assert(q * u * E == q * (u * E)) by (nonlinear_arith); assert(u * E == T);
        lemma_tadd(4 * KK, e); lemma_tadd(4 * KK, e + 1); lemma_tS(e + 1);
        assert(sg >= P) by (nonlinear_arith) requires sg * E >= P * E, E >= 1;
        assert(P * (10 * E) == (10 * P) * E) by (nonlinear_arith);
        assert(sg < 10 * P) by (nonlinear_arith) requires sg * E < (10 * P) * E, E >= 1;
    } else {
        lemma_tadd(z, -e); let E = t(-e); lemma_tpos(-e); assert(u == T * E);
        assert(q * (T * E) == (q * T) * E) by (nonlinear_arith);
        lemma_tadd(4 * KK + e, -e); lemma_tadd(4 * KK + e + 1, -e); lemma_tS(4 * KK + 1);
        assert(m * E >= y * E) by (nonlinear_arith) requires m >= y, E >= 1;
        let y1 = t(4 * KK + e + 1);
        assert(m * E < y1 * E) by (nonlinear_arith) requires m < y1, E >= 1;
    }
}
pub proof fn lemma_sci_denom(s: Seq<i16>, e: int) requires s == seq![(t(e % 4)) as i16], -300000 <= e <= 300000 ensures V(s, e / 4) == t(4 * KK + e), digs(s), s[0] > 0
{
    let k = e / 4; let r = e % 4; lemma_t0(); lemma_loS(s, 0, 0); lemma_lo0(s, 0, 0); lemma_p0(); assert(val(s, 0) == t(r));
    lemma_val_shift(s, 0, k + KK); lemma_pt(k + KK); lemma_tadd(r, 4 * (k + KK));
}

pub trait VLowerExp { spec fn tv(&self) -> NView;
    fn fmt(&self, f: &mut Formatter) -> (ret: Result<(), FmtError>) requires self.tv().can()
        ensures final(f).inf() == old(f).inf(), old(f).inf() ==> ret is Ok, ret is Ok ==> exists|o: Seq<u8>| sci_ok(self.tv(), false, o) && final(f).out() == #[trigger] (old(f).out() + o); }
pub trait VUpperExp { spec fn tv(&self) -> NView;
    fn fmt(&self, f: &mut Formatter) -> (ret: Result<(), FmtError>) requires self.tv().can()
        ensures final(f).inf() == old(f).inf(), old(f).inf() ==> ret is Ok, ret is Ok ==> exists|o: Seq<u8>| sci_ok(self.tv(), true, o) && final(f).out() == #[trigger] (old(f).out() + o); }
pub open spec fn sci_pre(v: &NumericVar) -> bool { v.digits.ok() && 0 <= v.ndigits <= v.digits.ds().len() && v.ndigits <= 99000 && digs(v.sd()) && (v.ndigits > 0 ==> v.sd()[0] != 0 && v.sd()[v.ndigits - 1] != 0) }
