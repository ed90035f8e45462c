## integer powers
@fn var NumericVar::power_int rlimit=60 spinoff
@spec
    requires self.can(), 16 <= rscale <= 1000, pow_dom(self.mag(), exp as int)
    ensures ret is Some, ret matches Some(r) ==> r.st() && r.dscale == rscale && r.mag() >= 0 && fits(r.mag(), rscale as int) && dvd(U(rscale as int), r.mag())
            && r.iv() == (if pow_neg(self.sign as int, exp as int) { -r.mag() } else { r.mag() })
            && pow_err(self.mag(), exp as int, r.mag(), rscale as int, pow_k(exp as int, self.ndigits as int))
            && pow_special(self.mag(), exp as int, r.mag(), rscale as int),
@at begin
    let ghost x = self.mag(); let ghost rs = rscale as int; let ghost s = self.sd(); let ghost w = self.weight as int; let ghost n = self.ndigits as int; let ghost X = rval(x); let ghost E = exp as int;
    proof { lemma_var_can(self); lemma_can_facts(self.view()); lemma_val_bounds(s, w + KK); lemma_ppos(KK); }
@at return 0
    proof { lemma_pow_n0(x, rs); lemma_pow_fits(x, 0, p(KK), rs, 0); }
@at let result#2
    proof { assert(result.sd() =~= s); }
@at return 1
    proof { lemma_pow_n1(x, rs); lemma_val_bounds(result.sd(), result.weight + KK); lemma_pow_fits(x, 1, result.mag(), rs, 0); }
@at return 2
    proof { lemma_pow_m1(x, rs); lemma_pow_fits(x, -1, result.mag(), rs, 0); }
@at return 3
    proof { lemma_val_bounds(result.sd(), result.weight + KK); lemma_pow_n2(x, result.mag(), rs, n); lemma_pow_fits(x, 2, result.mag(), rs, n); }
@at return 4
    proof { lemma_pow_b0(E, rs); }
@at let digits
    let ghost L = lg(rpwi(X, E)); let ghost k = imin(n, 4);
    proof { lemma_pow_logs(x, s, w, E); lemma_hs(s); }
@at let p
    proof { assert(DEC_DIGITS == 4 && NBASE == 10000); }
@at inv 0
    invariant_except_break 1 <= it__0 <= 4, it__0 <= n, p == 4 * (w - (it__0 - 1)), fin(f), rabs(rv(f) - hs(s, it__0 as int) as real) <= fd(it__0 as int),
    invariant digits@ == s, s.len() == n, hi__0 == n, digs(s), n >= 1, k == imin(n, 4), -99000 <= w <= 99000, n <= 99000,
    ensures fin(f), rabs(rv(f) - hs(s, k) as real) <= fd(k), p == 4 * (w - (k - 1)),
    decreases hi__0 - it__0
@at top 0
    let ghost f0 = f; let ghost p0 = p as int; let ghost j = it__0 as int;
@at body 0
    proof { assert(DEC_DIGITS == 4 && NBASE == 10000); lemma_fstep_safe(rv(f0), hs(s, j), j, s); }
@at let fl__0
    proof { assert(-200000real <= rv(f0) * 10000real <= 1000000000000000000000real); assert(0 <= at(s, j) <= 9999); }
@at set f
    proof { let c = at(s, j); lemma_fstep2(rv(f0), rv(fl__0), rv(f), hs(s, j), c, j); reveal_with_fuel(hs, 2); assert(hs(s, j + 1) == hs(s, j) * 10000 + c); }
@at after 0
    let ghost F0 = rv(f); let ghost P = p as int;
    proof { lemma_pow_est1(s, w, k, F0); lemma_lg17(F0); ax_lit(); }
@at let fl__3
    proof { lemma_pow_est2(lg(X), lg(F0), rv(fl__2), P, rv(fl__3), E); }
@at let fl__4
    proof { lemma_pow_est3(E as real * rv(fl__3), L, rv(fl__4)); }
@at let fl__5
    proof { assert(3real * 32767real == 98301real); assert(near(rv(fl__5), 98301real)); assert(98301real * 4real == 393204real); }
@at let fl__6
    proof { lemma_pow_exit(rv(f), L, rs, rv(f) + 1real); assert(rv(fl__6) >= 390000real); }
@at let fl__7
    proof { lemma_pow_exit(rv(f), L, rs, rv(fl__7)); }
@at let fl__8
    proof { lemma_pow_exit(rv(f), L, rs, rv(fl__8)); assert(NUMERIC_MAX_DISPLAY_SCALE == 1000); }
@at return 6
    proof { lemma_pow_under(x, E, rs); lemma_pow_fits(x, E, 0, rs, 0); }
@at let sig_digits
    let ghost fi = sig_digits - 1 - rs; let ghost sg = sig_digits as int; let ghost N = if E < 0 { -E } else { E };
    proof { assert(tr(rv(f), fi)); }
@at let fl__10
    proof { lemma_ln_range(rv(fl__10), N); }
@at let neg
    let ghost S = sig_digits as int; let ghost l = S - sg - 8; let ghost d = 5real * r10(-S);
    proof { assert(tr(rv(fl__10), l)); lemma_pow_ln(N, rv(fl__10), l); assert(S == 9 + rs + fi + l); lemma_pow_par(rpwi(X, E), rv(f), rs, fi, N, l, S); lemma_pow_start(rpwi(X, E), X, E, rs, d, S); }
@at let mask
    proof { assert(mask == N); assert(mask & 1 == mask % 2) by (bit_vector); }
@at let base_prod
    proof { assert(base_prod.sd() =~= s); lemma_inb_one(X, d); }
@at let result#5
    let ghost mut pw: int = 1; let ghost mut i: int = (mask % 2) as int; let ghost mut e: int = 0;
    proof { if mask % 2 != 0 { assert(result.sd() =~= s); } else { lemma_rep_one(&result, X, d); } }
@at inv 1
    invariant_except_break pw >= 1, pw == 1 || pw % 2 == 0, N == (mask / 2) * (2 * pw) + i, pw <= N, pw_rep(&base_prod, X, pw as nat, (pw - 1) as nat, d), base_prod.sign == (if pw == 1 { self.sign } else { 0 }), neg == (E < 0),
    invariant 2 <= N <= 2147483648, 0 <= e <= i <= N, pw_par(X, N as nat, d, S), sig_digits == S, pw_rep(&result, X, i as nat, e as nat, d), self.sign == 0 || self.sign == 0x4000, result.sign == (if pow_neg(self.sign as int, i) { 0x4000u16 } else { 0 }), neg == (E < 0),
    ensures i == N
    decreases mask
@at body 1
    let ghost m0 = mask as int; let ghost i0 = i; let ghost e0 = e; let ghost q = 2 * pw;
    proof { assert(DEC_DIGITS == 4); lemma_pw_sz(&base_prod, X, pw as nat, (pw - 1) as nat, d, N as nat, S); assert(mask >> 1 == mask / 2) by (bit_vector); if m0 / 2 == 0 { assert(0 * q == 0); } else { let h = m0 / 2; assert(h * q >= q) by (nonlinear_arith) requires h >= 1, q >= 0; } }
@at let local_rscale
    let ghost B = base_prod;
    proof { lemma_pw_pre(&B, &B, X, pw as nat, pw as nat, (pw - 1) as nat, (pw - 1) as nat, d, N as nat, S, local_rscale as int); }
    let ghost ls1 = local_rscale as int;
@at set base_prod
    proof { lemma_pw_mul(&B, &B, &base_prod, X, pw as nat, pw as nat, (pw - 1) as nat, (pw - 1) as nat, d, N as nat, S, ls1); pw = q; lemma_pw_sz(&base_prod, X, pw as nat, (pw - 1) as nat, d, N as nat, S); lemma_pw_sz(&result, X, i as nat, e as nat, d, N as nat, S); assert(mask & 1 == mask % 2) by (bit_vector); }
@at then 6
    let ghost R = result;
    proof { let h = mask / 2; assert(mask == 2 * h + 1); assert(mask * q == h * (2 * q) + q) by (nonlinear_arith) requires mask == 2 * h + 1; assert(h * (2 * q) >= 0) by (nonlinear_arith) requires h >= 0, q >= 0; }
@at let local_rscale#2
    proof { lemma_pw_pre(&base_prod, &R, X, pw as nat, i as nat, (pw - 1) as nat, e as nat, d, N as nat, S, local_rscale as int); }
    let ghost ls2 = local_rscale as int;
@at set result
    proof { lemma_pw_mul(&base_prod, &R, &result, X, pw as nat, i as nat, (pw - 1) as nat, e as nat, d, N as nat, S, ls2); i = i + pw; e = e + pw; lemma_pw_sz(&result, X, i as nat, e as nat, d, N as nat, S); }
@at then 7
    proof { assert(false); }
@at bot 1
    proof { let h = mask / 2; if mask % 2 == 0 { assert(mask * q == h * (2 * q)) by (nonlinear_arith) requires mask == 2 * h; } }
@at after 1
    let ghost Q = result; let ghost rr = result.mag();
    proof { lemma_pw_sz(&result, X, i as nat, e as nat, d, N as nat, S); lemma_round_dvd(rr, rs); }
@at end-pre
    proof { lemma_val_bounds(result.sd(), result.weight + KK); lemma_pow_end(x, E, rr, result.mag(), e as nat, d, S, rs); lemma_pow_fits(x, E, result.mag(), rs, 0); }

## what follows the integer case in power_common is never reached under its precondition
@fn var NumericVar::exp_common trusted
@spec
    requires false
@fn convert f64::try_from trait=TryFrom<&NumericVar<'a>> as=try_from_varref__f64 free trusted
@spec
    requires false

@fn var NumericVar::power_common deps=convert~i32::try_from~TryFrom<&NumericVar<'a>>;convert~f64::try_from~TryFrom<&NumericVar<'a>>
@sub TryInto :: < i32 > :: try_into(exp) ==> try_from_varref__i32(exp)
@sub TryFrom :: try_from(&ln_num) ==> try_from_varref__f64(&ln_num).ok()
@sub val *= LOG10_E ==> val = val * LOG10_E
@spec
    requires self.can(), exp.can(), pow_int_in(self.view(), exp.view()) || self.mag() == 0 && exp.iv() > 0
    ensures ret matches Some(r) && r.st() && r.mag() >= 0 && fits(r.mag(), r.dscale as int) && dvd(U(r.dscale as int), r.mag()) && pow_res(self.view(), exp.view(), r.view())
    decreases 0int
@at begin
    let ghost N = pow_n(exp.view());
    proof { lemma_var_can(self); lemma_var_can(exp); lemma_can_facts(self.view()); lemma_can_facts(exp.view()); lemma_pow_n(exp); }
@at let rscale
    proof { if self.mag() == 0 { lemma_pow_z(exp.iv(), N); } }
@at return 0
    proof { if let Some(ref r) = result { if self.mag() == 0 && N > 0 { lemma_pow_zero(N, r.mag(), rscale as int, pow_k(N, self.ndigits as int)); } } }
@at return 1
    proof { lemma_pow_b0(1, 16); }

@fn var NumericVar::pow
@panics "zero raised to a negative power is undefined" self.sign != 0xC000 && exp.sign != 0xC000 && self.mag() == 0 && exp.iv() < 0
@panics "a negative number raised to a non-integer power yields a complex result" self.sign != 0xC000 && exp.sign != 0xC000 && self.iv() < 0 && !dvd(p(KK), exp.iv())
@spec
    requires self.view().can(), exp.view().can(), self.digits.ok(), exp.digits.ok(), 0 <= self.ndigits <= self.digits.ds().len(), 0 <= exp.ndigits <= exp.digits.ds().len(), pow_in(self.view(), exp.view())
    ensures ret matches Some(r) && if r.sign == 0xC000 { pow_nan(self.view(), exp.view()) } else { r.st() && r.mag() >= 0 && fits(r.mag(), r.dscale as int) && dvd(U(r.dscale as int), r.mag())
        && if self.view().nan || exp.view().nan { pow_one(self.view(), exp.view()) && r.iv() == p(KK) && r.dscale == 0 } else { pow_res(self.view(), exp.view(), r.view()) } }
@at begin
    proof { if !self.view().nan { assert(self.can()); lemma_var_can(self); } if !exp.view().nan { assert(exp.can()); lemma_var_can(exp); } lemma_one_fits(); lemma_ppos(KK); }
@at let exp_trunc
    proof { assert(exp_trunc.sd() =~= exp.sd()); }
@at past trunc_common
    proof { lemma_pow_trunc(exp, &exp_trunc); }

@fn num Numeric::pow
@spec
    requires self.can(), exp.can(), pow_in(self.nv(), exp.nv())
    ensures ({ let (x, y) = (self.nv(), exp.nv()); ret matches Some(z) && z.can() && if x.nan || y.nan { if pow_one(x, y) { z.nv().is(p(KK), 0) } else { z.nv() == nan_view() } } else { !z.nv().nan && pow_res(x, y, z.nv()) } })
@at arm 0.0
    proof { if var.sign != 0xC000 { lemma_U(var.dscale as int); lemma_dvd_neg(U(var.dscale as int), var.mag()); } lemma_can_facts(nan_view()); }
