@fn var NumericVar::write
@spec
    requires can_write(self)
    ensures final(f).inf() == old(f).inf(), old(f).inf() ==> ret is Ok, ret is Ok ==> final(f).out() == old(f).out() + text(self.view())
@at begin
    proof { reveal_strlit("NaN"); assert(sb("NaN"@) =~= nan_text()); lemma_t0(); }
    let ghost s = self.sd(); let ghost w = self.weight as int; let ghost n = self.ndigits as int; let ghost o0 = f.out(); let ghost i0 = f.inf(); let ghost mut g: int = 0; let ghost m = V(s, w);
    let ghost sg: Seq<u8> = if self.sign == 0x4000 { seq![45u8] } else { Seq::empty() };
@at before 0
    let ghost o1 = f.out();
    proof { assert(o1 =~= o0 + sg); lemma_val_empty0(s); }
@at inv 0
    invariant self.st(), self.norm(), s == self.sd(), s.len() == n, digits@ == s, w == self.weight, n == self.ndigits, w >= 0, hi__0 == w + 1, 0 <= it__0 <= hi__0, i0 == old(f).inf(), f.inf() == i0, t(4) == 10000,
        it__0 == 0 ==> f.out() == o1, it__0 > 0 ==> f.out() == o1 + dec(val(s, it__0 - 1)), val(s, -1) == 0,
        it__0 > 0 ==> (n > 0 && val(s, it__0 - 1) >= 1) || (n == 0 && w == 0),
    decreases hi__0 - it__0
@at let dig
    proof {
        assert(dig == at(s, d as int)); lemma_val_step(s, d as int); lemma_val_bounds(s, d - 1);
        if d > 0 { lemma_dec_append(val(s, d - 1), dig as int, 4); }
    }
@at bot 0
    proof { assert(f.out() =~= o1 + dec(val(s, it__0 - 1))); }
@at then 5
    let ghost o2 = f.out();
@at before 1
    let ghost o3 = f.out();
    proof {
        lemma_text_cut(s, w, 0); if w < 0 { lemma_val_neg(s, w); assert(o2 =~= o0 + sg + dec(0)); }
        assert(o2 =~= o0 + sg + dec(m / p(KK))); assert(o3 =~= o0 + sg + dec(m / p(KK)) + seq![46u8]);
        assert(o3 =~= o3 + padn(m / U(0), 0));
    }
@at inv 1
    invariant self.st(), self.norm(), s == self.sd(), s.len() == n, digits@ == s, w == self.weight, n == self.ndigits, hi__1 == self.dscale, st__1 == 4, i0 == old(f).inf(), f.inf() == i0, t(4) == 10000, t(0) == 1, t(1) == 10, t(2) == 100, t(3) == 1000,
        m == V(s, w), 0 <= it__1 <= hi__1, it__1 < hi__1 ==> it__1 == 4 * g, it__1 == hi__1 ==> 4 * g - 3 <= it__1 <= 4 * g, 0 <= g, d == w + 1 + g,
        f.out() == o3 + padn(m / U(it__1 as int), it__1 as int),
    decreases hi__1 - it__1
@at let dig#2
    let ghost dg0 = dig as int;
    let ghost k: int = if scale + 4 <= hi__1 { 4 } else { hi__1 - scale };
    proof {
        assert(dig == at(s, w + g + 1));
        lemma_text_frac(s, w, g, k); lemma_text_cut(s, w, g); lemma_pt(KK - g); assert(U(4 * g) == p(KK - g));
        lemma_padn_append(val(s, w + g), dg0 / t(4 - k), 4 * g, k);
        assert(dg0 / 1 == dg0);
    }
@at let acc
    proof { assert(dg0 / 1 == dg0); }
@at inv 2
    invariant 0 <= it__2 <= hi__2, hi__2 == 4 - width, 1 <= width <= 3, 0 <= dg0 <= 9999, acc == dg0 / t(it__2 as int), t(0) == 1, t(1) == 10, t(2) == 100, t(3) == 1000,
    decreases hi__2 - it__2
@at bot 2
    proof { let j = it__2 - 1; assert(j == 0 || j == 1 || j == 2); }
@at bot 1
    proof { g = g + 1; assert(f.out() =~= o3 + padn(m / U(it__1 as int), it__1 as int)); }
@at end-pre
    proof {
        lemma_text_cut(s, w, 0);
        if self.dscale > 0 { }
        else { if w < 0 { lemma_val_neg(s, w); } }
        assert(f.out() =~= o0 + text(self.view()));
    }
@fn var NumericVar::fmt trait=fmt::Display asimpl vtrait=VDisplay group=display
@spec
@impl VDisplay for NumericVar<'a> group=display
open spec fn tv(&self) -> NView { self.view() }
open spec fn tok(&self) -> bool { can_write(self) }
@fn num NumericBuf::fmt trait=fmt::Display asimpl vtrait=VDisplay group=display
@at begin
    proof { lemma_can_facts(self.nv()); }
@impl VDisplay for NumericBuf group=display
open spec fn tv(&self) -> NView { self.nv() }
open spec fn tok(&self) -> bool { self.nv().can() }
@fn num Numeric::fmt trait=fmt::Display asimpl vtrait=VDisplay group=display
@at begin
    proof { lemma_can_facts(self.nv()); }
@impl VDisplay for Numeric group=display
open spec fn tv(&self) -> NView { self.nv() }
open spec fn tok(&self) -> bool { self.nv().can() }
@fn var NumericVar::normalize
@spec
    requires can_write(self), self.sign != 0xC000 ==> 0 <= self.mag()
    ensures ret.b() == ntext(self.view())
@at begin
    proof { reveal_strlit("NaN"); assert(sb("NaN"@) =~= nan_text()); }
@at let s
    let ghost x = text(self.view());
    proof { lemma_ftext(self.sign == 0x4000, self.mag(), self.dscale as int); assert(has(x, 46) <==> self.dscale > 0); }
@at inv 0
    invariant_except_break bytes@ == x, count__ + it__0 == x.len(), strip0(x) == strip0(x.subrange(0, it__0 as int)),
    invariant bytes@ == x,
    ensures count__ <= x.len(), strip0(x) == x.subrange(0, x.len() - count__),
    decreases it__0
@at before 0
    proof { assert(x.subrange(0, x.len() as int) =~= x); }
@at body 0
    proof { lemma_strip0_step(x, it__0 as int); }
@at let count_zeros
    proof { let i = choose|i: int| 0 <= i < x.len() && x[i] == 46; lemma_strip0_keep(x, i); }
@at call truncate
    proof { let z = strip0(x); assert(z.last() == bytes@[z.len() - 1]); assert(ndot(z) =~= x.subrange(0, new_len as int)); }
@fn num Numeric::normalize
@spec
    requires self.nv().can()
    ensures ret.b() == ntext(self.nv())
@at begin
    proof { lemma_can_facts(self.nv()); }

## scientific notation
@fn var count_zeros
@spec
    requires 1 <= digit <= 9999
    ensures ret.0 + ret.1 == ndg(digit as int), ret.1 == tzd(digit as int)
@at begin
    proof { lemma_t0(); }
@at inv 0
    invariant_except_break val > 0,
    invariant hi__0 == 4, 0 <= it__0 <= 4, 1 <= digit <= 9999, val == digit as int / t(it__0 as int), t(0) == 1, t(1) == 10, t(2) == 100, t(3) == 1000, t(4) == 10000, n + zero == it__0, 0 <= n, 0 <= zero,
        n == 0 ==> digit as int % t(it__0 as int) == 0, n > 0 ==> zero == tzd(digit as int) && zero < it__0,
    ensures n + zero == ndg(digit as int), n > 0,
    decreases hi__0 - it__0
@fn var NumericVar::select_sci_scale
@spec
    requires sci_pre(self)
    ensures ret == sci_sc(self.sd())
@at inv 0
    invariant_except_break it__0 == 0, found__ is None,
    invariant hi__0 == digits@.len(), digits@ == self.sd(), sci_pre(self),
    ensures digits@.len() == 0 ==> found__ is None, digits@.len() > 0 ==> found__ == Some((0usize, digits@[0])),
    decreases hi__0 - it__0
@at inv 1
    invariant_except_break it__1 == digits@.len(), found__ is None,
    invariant digits@ == self.sd(), sci_pre(self),
    ensures digits@.len() == 0 ==> found__ is None, digits@.len() > 0 ==> found__ == Some(((digits@.len() - 1) as usize, digits@[digits@.len() - 1])),
    decreases it__1
@fn var NumericVar::write_sci
@spec
    requires can_write(self), self.sign != 0xC000 ==> div_sz(self, 45000), rscale <= 150000
    ensures final(f).inf() == old(f).inf(), old(f).inf() ==> ret is Ok,
        ret is Ok ==> final(f).out() == old(f).out() + (if self.sign == 0xC000 { nan_text() } else { let e = sci_e(self.sd(), self.weight as int); let sc = if rscale < 0 { 0 } else { rscale as int };
            ftext(self.sign == 0x4000 && sci_div(self.mag(), e, sc) > 0, sci_div(self.mag(), e, sc), sc).push(if lower_exp { 101u8 } else { 69u8 }) + expfmt(e) }),
@at begin
    let ghost rscale0 = rscale;
@at let denominator
    let ghost e = exponent as int; let ghost m = self.mag();
    proof {
        lemma_t0(); let r = e % 4; assert(r == 0 || r == 1 || r == 2 || r == 3);
        assert(denominator.sd() =~= seq![(t(r)) as i16]); lemma_sci_denom(denominator.sd(), e); assert(denominator.mag() == t(4 * KK + e));
        assert(e == sci_e(self.sd(), self.weight as int));
        lemma_val_bounds(self.sd(), self.weight + KK); if self.ndigits == 0 { lemma_val_empty(self.sd(), self.weight + KK); } else { lemma_val_first(self.sd(), self.weight + KK); lemma_ppos(self.weight + KK); }
    }
@at let significand
    proof {
        let g = significand; let sc = rscale as int;
        assert(g.mag() == sci_div(m, e, sc));
        lemma_quot_pos(m, t(4 * KK + e), sc); lemma_quot_zero(t(4 * KK + e), sc);
        lemma_val_bounds(g.sd(), g.weight + KK); if g.ndigits == 0 { lemma_val_empty(g.sd(), g.weight + KK); } else { lemma_val_first(g.sd(), g.weight + KK); lemma_ppos(g.weight + KK); }
    }
@at end-pre
    proof { let g = significand; assert(g.sign == 0x4000 <==> g.iv() < 0); assert(text(g.view()) == ftext(g.iv() < 0, g.mag(), rscale as int)); assert(g.iv() < 0 <==> self.sign == 0x4000 && g.mag() > 0); assert(rscale as int == (if rscale0 < 0 { 0 } else { rscale0 as int })); }

@each T=Numeric|NumericBuf
@each L,UP=LowerExp,false|UpperExp,true
@fn num {T}::fmt trait=fmt::{L} asimpl vtrait=V{L} group=sci
@at begin
    proof { lemma_can_facts(self.nv()); }
@at let rscale
    proof {
        let v = self.nv();
        if !v.nan { if v.digits.len() > 0 { lemma_sci(v.digits, v.weight); } else { let y = t(4 * KK); lemma_tpos(4 * KK); lemma_quot_zero(y, 0); lemma_t0(); lemma_U(0); lemma_dvd_mul(U(0), 0); assert(sci_parts(0, 0, 0, 0)); } }
    }
@end
@end
@impl VLowerExp for Numeric group=sci
open spec fn tv(&self) -> NView { self.nv() }
@impl VUpperExp for Numeric group=sci
open spec fn tv(&self) -> NView { self.nv() }
@impl VLowerExp for NumericBuf group=sci
open spec fn tv(&self) -> NView { self.nv() }
@impl VUpperExp for NumericBuf group=sci
open spec fn tv(&self) -> NView { self.nv() }
