@fn var NumericVar::with_ndigits
@spec
    requires 0 <= ndigits <= 0x0fff_0000
    ensures ret.digits.ok(), ret.ndigits == ndigits, ret.weight == 0, ret.dscale == 0, ret.sign == 0, ret.digits.ds().len() == ndigits,
        ret.digits matches CowDigits::Owned(d) && d.off() == 5 && d.buf().len() == ndigits + 5

@fn var NumericVar::borrowed
@spec
    requires ndigits == digits@.len(), ndigits <= 0x0fff_0000
    ensures ret.digits.ok(), ret.ndigits == ndigits, ret.weight == weight, ret.dscale == dscale, ret.sign == sign, ret.sd() == digits@,
        ret.digits.ds() == digits@, ret.digits is Borrowed

@fn var NumericVar::owned
@spec
    requires 0 <= ndigits, digits.off() + ndigits <= digits.buf().len(), digits.ok()
    ensures ret.digits.ok(), ret.ndigits == ndigits, ret.weight == weight, ret.dscale == dscale, ret.sign == sign,
        ret.digits == CowDigits::<'a>::Owned(digits)

@fn var NumericVar::zero_scaled
@spec
    requires scale >= 0
    ensures ret.sd() == Seq::<i16>::empty(), ret.digits.ok(), ret.ndigits == 0, ret.weight == 0, ret.dscale == scale, ret.sign == 0, ret.mag() == 0
@at end
    proof { assert(ret__.sd() =~= Seq::<i16>::empty()); lemma_val_empty(Seq::<i16>::empty(), KK as int); }

@fn var NumericVar::zero
@spec
    ensures ret.sd() == Seq::<i16>::empty(), ret.digits.ok(), ret.ndigits == 0, ret.weight == 0, ret.dscale == 0, ret.sign == 0, ret.mag() == 0, ret.can()
@at end
    proof { assert(ret__.sd() =~= Seq::<i16>::empty()); lemma_val_empty(Seq::<i16>::empty(), KK as int); lemma_U(0); lemma_dvd_mul(U(0), 0); }

@fn var NumericVar::nan
@spec
    ensures ret.view() == nan_view(), ret.digits.ok(), ret.ndigits == 0
@at end
    proof { assert(ret__.sd() =~= seq![]); }

@fn var NumericVar::is_nan
@spec
    ensures ret == (self.sign == 0xC000)

@fn var NumericVar::is_positive
@spec
    ensures ret == (self.sign == 0)

@fn var NumericVar::is_negative
@spec
    ensures ret == (self.sign == 0x4000)

@fn var NumericVar::ndigits
@spec
    ensures ret == self.ndigits

@fn var NumericVar::weight
@spec
    ensures ret == self.weight

@fn var NumericVar::dscale
@spec
    ensures ret == self.dscale

@fn var NumericVar::digits
@spec
    requires self.digits.ok(), 0 <= self.ndigits <= self.digits.ds().len()
    ensures ret@ == self.sd()

@fn var NumericVar::strip
@spec
    requires old(self).gst()
    ensures final(self).gst(), final(self).norm(), final(self).dscale == old(self).dscale, old(self).st() ==> final(self).st(),
        final(self).ndigits > 0 ==> final(self).sign == old(self).sign,
        final(self).ndigits <= old(self).ndigits,
        old(self).wst() ==> final(self).wst() && final(self).mag() == old(self).mag() && final(self).iv() == old(self).iv() && (final(self).ndigits == 0 ==> final(self).mag() == 0)
            && (final(self).ndigits > 0 ==> p(final(self).weight + KK) <= final(self).mag() < p(final(self).weight + KK + 1) && final(self).mag() >= 1),
        final(self).ndigits > 0 ==> final(self).weight <= old(self).weight
            && final(self).ndigits - 1 - final(self).weight <= old(self).ndigits - 1 - old(self).weight
            && final(self).weight >= old(self).weight - old(self).ndigits
@at begin
    let ghost s0 = self.sd(); let ghost w0 = self.weight as int; let ghost n0 = self.ndigits as int;
@at let digits
    proof { assert(digits@ =~= s0); }
@at inv 0
    invariant 0 <= i, 0 <= ndigits, i + ndigits == n0, n0 <= 0x0fff_ffff, digits@ == s0, s0.len() == n0, self.weight == w0 - i, -0x4000_0000 <= w0 - n0, w0 <= 0x4000_0000,
        forall|j: int| 0 <= j < i ==> s0[j] == 0,
    decreases ndigits
@at inv 1
    invariant 0 <= i, 0 <= ndigits, i + ndigits <= n0, n0 <= 0x0fff_ffff, digits@ == s0, s0.len() == n0, self.weight == w0 - i, -0x4000_0000 <= w0 - n0, w0 <= 0x4000_0000,
        forall|j: int| 0 <= j < i ==> s0[j] == 0, ndigits > 0 ==> s0[i as int] != 0,
        forall|j: int| i + ndigits <= j < n0 ==> s0[j] == 0,
    decreases ndigits
@at end
    proof {
        let s1 = self.sd();
        assert(data.off() + ndigits <= data.buf().len());
        assert(s1 =~= s0.subrange(i as int, i + ndigits));
        if old(self).wst() {
        if ndigits == 0 {
            assert forall|j: int| 0 <= j < w0 + KK + 1 implies #[trigger] at(s0, w0 + KK - j) == 0 by {}
            lemma_lo_zero(s0, w0 + KK, w0 + KK + 1);
            lemma_val_empty(s1, KK as int);
        } else {
            let k = w0 + KK + 1;
            assert forall|j: int| 0 <= j < k implies at(s0, w0 + KK - j) == #[trigger] at(s1, w0 - i + KK - j) by {
                let q = w0 + KK - j;
                if q < i { } else if q < i + ndigits { assert(s1[q - i] == s0[q]); } else { }
            }
            lemma_lo_congr(s0, w0 + KK, s1, w0 - i + KK, k);
            lemma_lo_top(s1, w0 - i + KK, k);
            lemma_val_first(s1, w0 - i + KK); lemma_val_bounds(s1, w0 - i + KK); lemma_ppos(w0 - i + KK);
        }
        }
    }

