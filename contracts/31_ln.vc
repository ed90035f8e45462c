## the natural logarithm: roots until the argument is near 1, then the series of the inverse hyperbolic tangent
@fn var lazy_TWO
@spec
    ensures ret.st(), ret.norm(), ret.mag() == 2 * p(KK), ret.ndigits == 1, ret.weight == 0, ret.dscale == 0, ret.sign == 0
@at end
    proof { assert(ret__.sd() =~= seq![2i16]); lemma_val_one(ret__.sd(), 0, 0); }

@fn var lazy_ZERO_POINT_NINE
@spec
    ensures ret.st(), ret.norm(), ret.mag() == 9000 * p(KK - 1), ret.ndigits == 1, ret.weight == -1, ret.dscale == 1, ret.sign == 0
@at end
    proof { assert(ret__.sd() =~= seq![9000i16]); lemma_val_one(ret__.sd(), -1, 0); }

@fn var lazy_ONE_POINT_ONE
@spec
    ensures ret.st(), ret.norm(), ret.mag() == p(KK) + 1000 * p(KK - 1), ret.ndigits == 2, ret.weight == 0, ret.dscale == 1, ret.sign == 0
@at end
    proof { assert(ret__.sd() =~= seq![1i16, 1000i16]); lemma_two_digits(ret__.sd()); }

@fn var NumericVar::ln_common rlimit=60 spinoff
@spec
    requires self.can(), self.sign == 0, self.mag() > 0, 0 <= rscale <= 1000
    ensures ret.st(), ret.dscale == rscale, ret.mag() >= 0, dvd(U(rscale as int), ret.mag()), ln_err(self.mag(), ret.iv(), rscale as int)
@at begin
    let ghost A = lnr(rval(self.mag())); let ghost rs = rscale as int; let ghost v = r10(-(rs + 8)); let ghost mut k: nat = 0;
    proof { lemma_var_can(self); lemma_can_facts(self.view()); lemma_nz(self); lemma_tens(); lemma_ln_v(rs); lemma_ln_start(self.sd(), self.weight as int, v); }
@at let x
    proof { assert(x.sd() =~= self.sd()); }
@at let fact
    proof { assert(two(1) == 2 * two(0)); }
@at inv 0
    invariant ln_in(&x, A, k, v, &fact), v == r10(-(rs + 8)), 0real < v <= 1real / 100000000real, rs == rscale, 0 <= rs <= 1000, rabs(A) <= 1300000real, p(KK - 1) > 0, p(KK) > 0,
    decreases 24 - k
@at body 0
    let ghost x0 = x;
    proof { lemma_tens(); lemma_nz(&x); lemma_red(x.mag()); }
@at set x
    proof { lemma_ln_turn(&x0, &x, local_rscale as int, A, k, rs); lemma_fact_pre(&fact, k + 1); }
@at set fact
    proof { k = k + 1; lemma_two_step(k); lemma_fact_post(&fact, k + 1); }
@at inv 1
    invariant ln_in(&x, A, k, v, &fact), 9 * p(KK) < 10 * x.mag(), v == r10(-(rs + 8)), 0real < v <= 1real / 100000000real, rs == rscale, 0 <= rs <= 1000, rabs(A) <= 1300000real, p(KK - 1) > 0, p(KK) > 0,
    decreases 24 - k
@at body 1
    let ghost x0 = x;
    proof { lemma_tens(); lemma_nz(&x); lemma_red(x.mag()); }
@at set x#2
    proof { lemma_ln_turn(&x0, &x, local_rscale as int, A, k, rs); lemma_fact_pre(&fact, k + 1); }
@at set fact#2
    proof { k = k + 1; lemma_two_step(k); lemma_fact_post(&fact, k + 1); }
@at let local_rscale#3
    let ghost X = x.mag(); let ghost S = rs + 8; let ghost neg = X < p(KK);
    proof { lemma_tens(); lemma_nz(&x); }
@at let result
    proof { lemma_nz(&result); assert(result.mag() == iabs(X - p(KK))); }
@at let elem
    proof { lemma_nz(&elem); }
@at set result
    let ghost c = result.mag(); let ghost b = rval(c);
    proof { lemma_ln_quot(&result, X, S); }
@at let xx
    proof { assert(xx.sd() =~= result.sd()); }
@at set x#3
    proof { lemma_nz(&x); assert(red_ok(X)); lemma_ser_start(X, c, x.mag(), S, imin(result.ndigits as int, result.ndigits as int)); lemma_ser_sz(b, 0, c, x.mag(), c, S); lemma_frac_sz(x.sd(), x.weight as int, S); }
    let ghost mut i: nat = 0;
@at let ni
    proof { assert((2 * 0 + 1) * p(KK) == p(KK)); }
@at inv 2
    invariant_except_break ser_in(&xx, &x, &result, &ni, b, i, S, neg),
    invariant S == rs + 8, 0 <= rs <= 1000, local_rscale == S, rs == rscale,
    ensures ser_res(&result, S, neg, b)
    decreases S - 2 * i
@at body 2
    let ghost r0 = result; let ghost xx0 = xx;
    proof { lemma_ser_pre(&xx, &x, &result, &ni, b, i, S, neg); }
@at set ni
    proof { lemma_ni(&ni, i); }
@at set xx
    proof { lemma_nz0(&xx); if xx0.mag() == 0 { lemma_mul_zero(x.mag(), xx.mag(), S, imin(xx0.ndigits as int, x.ndigits as int)); } lemma_ser_y(b, i, xx0.mag(), x.mag(), xx.mag(), result.mag(), S, imin(xx0.ndigits as int, x.ndigits as int)); lemma_frac_sz(xx.sd(), xx.weight as int, S); lemma_sign(&xx0, &x, &xx, neg); }
@at set elem
    let ghost el = elem.mag();
    proof { lemma_nz0(&elem); lemma_ser_int(b, i, xx0.mag(), x.mag(), xx.mag(), ni.mag(), el, r0.mag(), S, imin(xx0.ndigits as int, x.ndigits as int)); lemma_nz(&elem); lemma_sign(&xx, &ni, &elem, neg); if el > 0 { lemma_ser_sz(b, i + 1, xx.mag(), x.mag(), r0.mag() + el, S); lemma_frac_sz(elem.sd(), elem.weight as int, S); } }
@at set result#2
    proof { i = i + 1; lemma_dvd_add(U(S), r0.mag(), el); lemma_nz(&result); lemma_frac_sz(result.sd(), result.weight as int, S); }
@at then 1
    proof { assert(DEC_DIGITS == 4); assert(false); }
@at after 2
    let ghost R = result;
    proof { lemma_fact_pre(&fact, k + 1); lemma_ser_end(&result, &fact, S, rs); }
@at end
    proof { lemma_nz0(&ret__); if R.mag() == 0 { lemma_mul_zero(fact.mag(), ret__.mag(), rs, imin(R.ndigits as int, fact.ndigits as int)); } lemma_ln_fin(A, X, k, rs, b, R.mag(), neg, fact.mag(), ret__.mag()); lemma_sign(&R, &fact, &ret__, neg); }

@fn var NumericVar::estimate_ln_dweight
@spec
    requires self.can(), self.sign == 0, self.mag() > 0
    ensures ln_dw(self.mag(), ret as int)
@at begin
    let ghost X = self.mag(); let ghost s = self.sd(); let ghost w = self.weight as int; let ghost n = self.ndigits as int;
    proof { lemma_var_can(self); lemma_can_facts(self.view()); lemma_tens(); lemma_ppos(KK); }
@at let x
    proof { lemma_nz(&x); lemma_dw_one_size(X, &x); }
@at then 1
    proof { lemma_dw_digit(X, &x); }
@at set ln_dweight
    proof { assert(DEC_DIGITS == 4); lemma_dw_near(X, x.mag(), x.sd()[0] as int, x.weight as int, ndg(x.sd()[0] as int) - 1); }
@at set ln_dweight#2
    proof { lemma_dw_one(X); }
@at let d
    let ghost k = imin(n, 2); let ghost h = hs(s, k); let ghost dw = 4 * (w - k + 1);
    proof { assert(DEC_DIGITS == 4 && NBASE == 10000); lemma_hs(s); lemma_dw_head(s, w, k, h); assert(d@ == s); }
@at let fl__0
    proof { assert(digits == h && dweight == dw); ax_lit(); lemma_dw_safe(h, dw, rv(fl__0), rv(LN_10)); }
@at let fl__1
    proof { lemma_dw_safe2(h, dw, rv(fl__0), rv(LN_10), rv(fl__1)); }
@at let ln_var
    proof { lemma_dw_fl(h, dw, rv(fl__0), rv(fl__1), rv(fl__2), rv(LN_10), lnr(rval(X))); lemma_red(X); lemma_ln_far(rval(X)); }
@at set ln_dweight#3
    proof { lemma_dw_trunc(rv(fl__2), rv(fl__3)); assert(tr(rv(fl__3), ln_dweight as int)); lemma_dw_far(X, rv(fl__2), rv(fl__3), ln_dweight as int); }

@fn var NumericVar::ln
@panics "cannot take logarithm of zero" self.iv() == 0
@panics "cannot take logarithm of a negative number" self.iv() < 0
@spec
    requires self.can()
    ensures ret.st(), ret.mag() >= 0, fits(ret.mag(), ret.dscale as int), dvd(U(ret.dscale as int), ret.mag()), dvd(U(ret.dscale as int), ret.iv()), self.iv() > 0, ln_res(self.view(), ret.iv(), ret.dscale as int)
@at begin
    proof { lemma_var_can(self); lemma_can_facts(self.view()); lemma_nz(self); }
@at let rscale
    proof { assert(NUMERIC_MIN_SIG_DIGITS == 16 && NUMERIC_MAX_DISPLAY_SCALE == 1000 && NUMERIC_MIN_DISPLAY_SCALE == 0); }
@at end
    proof { lemma_ln_fits(self.mag(), self.weight as int, self.sd(), ret__.iv(), ret__.mag(), ret__.dscale as int); lemma_ln_res(self.mag(), ret__.iv(), self.dscale as int, ln_dweight as int, rscale as int); lemma_U(ret__.dscale as int); lemma_dvd_neg(U(ret__.dscale as int), ret__.mag()); assert(ret__.iv() == ret__.mag() || ret__.iv() == -ret__.mag()); }

@fn num Numeric::ln
@panics? "cannot take logarithm of zero" !self.nv().nan && self.nv().iv() == 0
@panics? "cannot take logarithm of a negative number" !self.nv().nan && self.nv().iv() < 0
@spec
    requires self.can()
    ensures self.nv().nan ==> ret.nv() == nan_view(), ret.can(), !self.nv().nan ==> !ret.nv().nan && self.nv().iv() > 0 && ln_res(self.nv(), ret.nv().iv(), ret.nv().dscale)
@at begin
    proof { lemma_can_facts(self.nv()); }
