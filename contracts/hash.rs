// ---------------------------------------------------------------- hashing: what a hasher is fed, as a sequence of writes
// <[i16] as Hash>::hash feeds a function of the slice contents (length prefix and elements): one write `Digits`
pub enum HW { U8(u8), I32(i32), I8(i8), Digits(Seq<i16>) }
pub trait Hasher: Sized {
    spec fn writes(&self) -> Seq<HW>;
    fn write_u8(&mut self, x: u8) ensures final(self).writes() == old(self).writes().push(HW::U8(x));
    fn write_i32(&mut self, x: i32) ensures final(self).writes() == old(self).writes().push(HW::I32(x));
    fn write_i8(&mut self, x: i8) ensures final(self).writes() == old(self).writes().push(HW::I8(x));
}
#[verifier::external_body]
pub fn vhash_range<H: Hasher>(d: &[i16], a: usize, b: usize, st: &mut H)
    requires a <= b <= d@.len()
    ensures final(st).writes() == old(st).writes().push(HW::Digits(d@.subrange(a as int, b as int)))
{ unimplemented!() }
// the writes made for a canonical value
pub open spec fn hashw(v: NView) -> Seq<HW> {
    if v.nan { Seq::empty() } else if v.digits.len() == 0 { seq![HW::U8(0)] } else { seq![HW::Digits(v.digits), HW::I32(v.weight as i32), HW::I8(if v.sign == 0 { 1i8 } else { -1i8 })] }
}
// C07: values that compare equal are fed alike
pub open spec fn hash_coherent(a: NView, w: Seq<HW>) -> bool { forall|b: NView| b.can() && cmp_view(a, b) == Ordering::Equal ==> w == #[trigger] hashw(b) }
pub trait VHash: HasNv { fn hash<H: Hasher>(&self, state: &mut H) requires self.hv().can()
    ensures final(state).writes() == old(state).writes() + hashw(self.hv()), hash_coherent(self.hv(), hashw(self.hv())); }
pub proof fn lemma_dg_eq(sa: Seq<i16>, wa: int, sb: Seq<i16>, wb: int, k: int)
    requires digs(sa), digs(sb), wa == wb, -32767 <= wa <= 32767, V(sa, wa) == V(sb, wb), 0 <= k <= 60000
    ensures forall|q: int| q > wa - k ==> dg(sa, wa, q) == dg(sb, wb, q)
    decreases k
{
    if k > 0 {
        lemma_dg_eq(sa, wa, sb, wb, k - 1);
        let q = wa - k + 1;
        if dg(sa, wa, q) > dg(sb, wb, q) { lemma_cmp_digit(sa, wa, sb, wb, q); }
        if dg(sa, wa, q) < dg(sb, wb, q) { lemma_cmp_digit(sb, wb, sa, wa, q); }
    }
}
// a canonical value has one digit string, weight and sign
pub proof fn lemma_hash_eq(a: NView, b: NView) requires a.can(), b.can(), cmp_view(a, b) == Ordering::Equal ensures hashw(a) == hashw(b)
{
    lemma_can_facts(a); lemma_can_facts(b);
    if !a.nan {
        assert(a.mag() == b.mag() && (a.mag() > 0 ==> a.sign == b.sign));
        if a.digits.len() > 0 {
            if a.weight < b.weight { lemma_pmono(a.weight + KK + 1, b.weight + KK); }
            if b.weight < a.weight { lemma_pmono(b.weight + KK + 1, a.weight + KK); }
            let x = a.digits; let y = b.digits; let w = a.weight;
            lemma_dg_eq(x, w, y, w, 60000);
            if x.len() < y.len() { let q = w - (y.len() - 1); assert(dg(y, w, q) == y[y.len() - 1]); assert(dg(x, w, q) == 0); }
            if y.len() < x.len() { let q = w - (x.len() - 1); assert(dg(x, w, q) == x[x.len() - 1]); assert(dg(y, w, q) == 0); }
            assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { let q = w - i; assert(dg(x, w, q) == x[i]); assert(dg(y, w, q) == y[i]); }
            assert(x =~= y);
        }
    }
}
pub proof fn lemma_hash_coherent(a: NView) requires a.can() ensures hash_coherent(a, hashw(a))
{ assert forall|b: NView| b.can() && cmp_view(a, b) == Ordering::Equal implies hashw(a) == #[trigger] hashw(b) by { lemma_hash_eq(a, b); } }
