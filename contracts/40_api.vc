@fn num Numeric::checked_add
@spec
    requires self.can(), other.can()
    ensures self.nv().nan || other.nv().nan ==> some_nan(ret),
        !self.nv().nan && !other.nv().nan ==> exact(ret, self.nv().iv() + other.nv().iv(), imax(self.nv().dscale, other.nv().dscale))
@at begin
    proof { lemma_sum_scale(self.nv(), other.nv()); assert(nan_view().can()); }

@fn num Numeric::checked_sub
@spec
    requires self.can(), other.can()
    ensures self.nv().nan || other.nv().nan ==> some_nan(ret),
        !self.nv().nan && !other.nv().nan ==> exact(ret, self.nv().iv() - other.nv().iv(), imax(self.nv().dscale, other.nv().dscale))
@at begin
    proof { lemma_sum_scale(self.nv(), other.nv()); assert(nan_view().can()); }

@fn var NumericVar::negate
@spec
    requires old(self).st(), old(self).norm(), old(self).ndigits > 0 ==> old(self).mag() > 0
    ensures final(self).st(), final(self).norm(), final(self).iv() == -old(self).iv(), final(self).mag() == old(self).mag(), final(self).dscale == old(self).dscale,
        final(self).weight == old(self).weight, final(self).ndigits == old(self).ndigits, final(self).sd() == old(self).sd(), final(self).digits == old(self).digits
@at begin
    proof { if self.ndigits == 0 { lemma_val_empty(self.sd(), self.weight + KK); } }

@fn var NumericVar::abs
@spec
    requires old(self).st(), old(self).norm()
    ensures final(self).st(), final(self).norm(), final(self).iv() == iabs(old(self).iv()), final(self).mag() == old(self).mag(), final(self).dscale == old(self).dscale,
        final(self).weight == old(self).weight, final(self).ndigits == old(self).ndigits, final(self).sd() == old(self).sd(), final(self).digits == old(self).digits
@at begin
    proof { lemma_val_bounds(self.sd(), self.weight + KK); }

@fn var lazy_ZERO
@spec
    ensures ret.st(), ret.norm(), ret.mag() == 0, ret.iv() == 0, ret.ndigits == 0, ret.weight == 0, ret.dscale == 0, ret.sign == 0

@fn var lazy_ONE
@spec
    ensures ret.st(), ret.norm(), ret.mag() == p(KK), ret.iv() == p(KK), ret.ndigits == 1, ret.weight == 0, ret.dscale == 0, ret.sign == 0, ret.sd() == seq![1i16]
@at end
    proof { assert(ret__.sd() =~= seq![1i16]); lemma_val_one(ret__.sd(), 0, 0); }

@fn var NumericVar::signum
@spec
    requires self.st(), self.norm(), self.ndigits > 0 ==> self.mag() > 0
    ensures ret.st(), ret.norm(), ret.iv() == sgn(self.iv()) * p(KK), ret.dscale == 0, ret.ndigits <= 1, ret.weight == 0
@at begin
    proof { if self.ndigits == 0 { lemma_val_empty(self.sd(), self.weight + KK); } lemma_ppos(KK); }

@fn var NumericVar::inc
@spec
    requires self.st(), sz(self, 45000)
    ensures ret.st(), ret.iv() == self.iv() + p(KK), ret.dscale == self.dscale

@fn num Numeric::negate
@spec
    requires self.can()
    ensures self.nv().nan ==> ret.nv() == nan_view(), !self.nv().nan ==> ret.nv().is(-self.nv().iv(), self.nv().dscale)
@at begin
    proof { lemma_can_facts(self.nv()); }

@fn num Numeric::abs
@spec
    requires self.can()
    ensures self.nv().nan ==> ret.nv() == nan_view(), !self.nv().nan ==> ret.nv().is(iabs(self.nv().iv()), self.nv().dscale)
@at begin
    proof { lemma_can_facts(self.nv()); }

@fn num Numeric::signum
@spec
    requires self.can()
    ensures self.nv().nan ==> ret.nv() == nan_view(), !self.nv().nan ==> ret.nv().is(sgn(self.nv().iv()) * p(KK), 0)
@at begin
    proof { lemma_can_facts(self.nv()); lemma_int_scale(sgn(self.nv().iv())); lemma_int_scale(1); lemma_fits_int(1); lemma_fits_int(0); lemma_ppos(KK); assert(-1 * p(KK) == -p(KK) && 0 * p(KK) == 0 && 1 * p(KK) == p(KK)); }

@fn num Numeric::inc
@spec
    requires self.can()
    ensures self.nv().nan ==> ret.nv() == nan_view(), !self.nv().nan ==> ret.nv().is(self.nv().iv() + p(KK), self.nv().dscale) && fits(iabs(self.nv().iv() + p(KK)), self.nv().dscale)
@panics VALUE_OVERFLOW_MSG !self.nv().nan && !fits(iabs(self.nv().iv() + p(KK)), self.nv().dscale)
@at begin
    proof { lemma_can_facts(self.nv()); lemma_int_scale(1);
        if !self.nv().nan { lemma_scale_up(p(KK), 0, self.nv().dscale); lemma_U(self.nv().dscale); lemma_dvd_add(U(self.nv().dscale), self.nv().iv(), p(KK)); } }

@fn num NumericBuf::negate_mut
@spec
    requires old(self).can()
    ensures old(self).nv().nan ==> final(self).nv() == nan_view(), !old(self).nv().nan ==> final(self).nv().is(-old(self).nv().iv(), old(self).nv().dscale)
@at begin
    proof { lemma_can_facts(self.nv()); }

@fn num NumericBuf::abs_mut
@spec
    requires old(self).can()
    ensures old(self).nv().nan ==> final(self).nv() == nan_view(), !old(self).nv().nan ==> final(self).nv().is(iabs(old(self).nv().iv()), old(self).nv().dscale)
@at begin
    proof { lemma_can_facts(self.nv()); }

@fn num Numeric::cmp
@spec
    requires self.can(), other.can()
    ensures ret == cmp_view(self.nv(), other.nv())
@at begin
    proof { lemma_can_facts(self.nv()); lemma_can_facts(other.nv()); }
