## ---- integer traits (one implementation per machine type; specifications are those of the traits in traits.rs)
@fn convert u8::next_digit trait=Unsigned asimpl group=conv
@each T=u16|u32|u64|u128
@fn convert {T}::next_digit trait=Unsigned asimpl group=conv
@at let new_val
    proof { let n = NBASE as int; let q = new_val as int; let v = self as int; assert(n == 10000); assert(q == v / n); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, n);
        assert(n * q == q * n) by (nonlinear_arith); assert(0 <= q * n <= v); assert(v - q * n == v % 10000); }
@end
@each T=u8|u16|u32|u64|u128
@fn convert {T}::from_numeric_digit trait=Unsigned asimpl group=conv
@fn convert {T}::from_u64 trait=Unsigned asimpl group=conv
@fn convert {T}::overflowing_mul trait=Unsigned asimpl group=conv
@fn convert {T}::overflowing_add trait=Unsigned asimpl group=conv
@impl Zero for {T} group=conv defaults=is_zero
    open spec fn ival(self) -> int { self as int }
    proof fn zero_is() {}
@impl Unsigned for {T} group=conv
    open spec fn umax() -> int { {T}::MAX as int }
    proof fn bound(self) { lemma_p10(); }
    #[verifier::external_body] fn size__() -> (ret: usize) { std::mem::size_of::<{T}>() }
@end
@each T,A=i8,u8|i16,u16|i32,u32|i64,u64|i128,u128
@fn convert {T}::from_numeric_digit trait=Signed asimpl group=conv
@fn convert {T}::from_i64 trait=Signed asimpl group=conv
@fn convert {T}::is_negative trait=Signed asimpl group=conv
@fn convert {T}::negative trait=Signed asimpl group=conv
@fn convert {T}::abs trait=Signed asimpl group=conv
@fn convert {T}::overflowing_mul trait=Signed asimpl group=conv
@fn convert {T}::overflowing_sub trait=Signed asimpl group=conv
@impl Zero for {T} group=conv defaults=is_zero
    open spec fn ival(self) -> int { self as int }
    proof fn zero_is() {}
@impl Signed for {T} group=conv
    type AbsType = {A};
    open spec fn smin() -> int { {T}::MIN as int }
    open spec fn smax() -> int { {T}::MAX as int }
    proof fn sbound(self) {}
    fn eq__(self, o: Self) -> (ret: bool) { self == o }
    #[verifier::external_body] fn size__() -> (ret: usize) { std::mem::size_of::<{T}>() }
@end

@fn convert unsigned_to_var group=conv
@spec
    requires sign == 0 || sign == 0x4000
    ensures ret.st(), ret.dscale == 0, ret.sign == sign, ret.mag() == val.ival() * p(KK), sz(&ret, 200), ret.ndigits - 1 - ret.weight <= 0
@at begin
    proof { val.bound(); lemma_p0(); }
@at let data
    let ghost N = T::MAX_NDIGITS as int; let ghost v0 = val.ival();
@at before 0
    proof { lemma_lo0(digits@, N - 1, 0); assert(0 * p(0) == 0); assert(v0 * 1 == v0); }
@at inv 0
    invariant_except_break u_val.ival() > 0 || ndigits == 0, ndigits < N,
    invariant digits@.len() == N, 1 <= N <= 100, 0 <= ndigits <= N, i == N - ndigits, 0 <= v0 < p(N), 0 <= u_val.ival(),
        lo(digits@, N - 1, ndigits as int) + u_val.ival() * p(ndigits as int) == v0,
        forall|j: int| N - ndigits <= j < N ==> 0 <= #[trigger] digits@[j] < 10000,
    ensures u_val.ival() == 0, ndigits >= 1,
    decreases N - ndigits
@at top 0
    let ghost e0 = digits@; let ghost k = ndigits as int; let ghost x = u_val.ival();
    proof { u_val.bound(); }
@at set u_val
    proof {
        let d = digit as int; let y = u_val.ival(); let q = p(k);
        assert(digits@ =~= e0.update(i as int, digit)); lemma_lo_upd_out(e0, i as int, digit, N - 1, k); lemma_loS(digits@, N - 1, k); lemma_pS(k + 1);
        assert(x == 10000 * y + d);
        assert(x * q == y * (10000 * q) + d * q) by (nonlinear_arith) requires x == 10000 * y + d;
        if y > 0 && k + 1 >= N { lemma_lo_nonneg(digits@, N - 1, k + 1); let q1 = p(k + 1); assert(y * q1 >= q1) by (nonlinear_arith) requires y >= 1, q1 >= 0; }
    }
@at after 0
    let ghost fin = digits@; let ghost n = ndigits as int;
    proof { assert(0 * p(n) == 0); assert(lo(fin, N - 1, n) == v0); }
@at end
    proof {
        let s = ret__.sd();
        assert(s =~= fin.subrange(N - n, N));
        assert forall|j: int| 0 <= j < n implies at(fin, N - 1 - j) == #[trigger] at(s, n - 1 - j) by { let i = n - 1 - j; assert(s[i] == fin[N - n + i]); }
        lemma_lo_congr(fin, N - 1, s, n - 1, n); lemma_val_shift(s, n - 1, KK);
    }

@fn convert from_unsigned group=conv
@spec
    ensures ret.st(), ret.dscale == 0, ret.sign == 0 || ret.mag() == 0, ret.mag() == val.ival() * p(KK), ret.iv() == val.ival() * p(KK), sz(&ret, 200), ret.ndigits - 1 - ret.weight <= 0
@at begin
    proof { val.bound(); assert(0 * p(KK) == 0); }

@fn convert from_signed group=conv
@spec
    ensures ret.st(), ret.dscale == 0, ret.mag() == iabs(val.ival()) * p(KK), ret.iv() == val.ival() * p(KK), sz(&ret, 200), ret.ndigits - 1 - ret.weight <= 0
@at begin
    proof { assert(0 * p(KK) == 0); assert((-val.ival()) * p(KK) == -(val.ival() * p(KK))) by (nonlinear_arith); }

@each T,F=u8,unsigned|u16,unsigned|u32,unsigned|u64,unsigned|u128,unsigned|i8,signed|i16,signed|i32,signed|i64,signed|i128,signed
@fn convert NumericBuf::from trait=From<{T}> as=from__{T} group=conv
@spec
    ensures ret.nv().is(val as int * p(KK), 0)
@at begin
    proof { lemma_int_scale(val as int); lemma_iabs_mul(val as int); lemma_fits_big(iabs(val as int)); }
@end

@fn convert NumericBuf::from trait=From<bool> as=from__bool
@spec
    ensures ret.nv().is(if b { p(KK) } else { 0 }, 0)
@sub val.into() ==> NumericBuf::from__u8(val)

@fn convert NumericBuf::from trait=From<usize> as=from__usize
@spec
    ensures ret.nv().is(u as int * p(KK), 0)
@sub (u as u64).into() ==> NumericBuf::from__u64(u as u64)
@sub (u as u32).into() ==> NumericBuf::from__u32(u as u32)

@fn convert NumericBuf::from trait=From<isize> as=from__isize
@spec
    ensures ret.nv().is(i as int * p(KK), 0)
@sub (i as i64).into() ==> NumericBuf::from__i64(i as i64)
@sub (i as i32).into() ==> NumericBuf::from__i32(i as i32)

@fn convert NumericVar::from trait=From<i64> as=from
@spec
    ensures ret.st(), ret.dscale == 0, ret.mag() == iabs(val as int) * p(KK), ret.iv() == val as int * p(KK), sz(&ret, 200), ret.ndigits - 1 - ret.weight <= 0

## ---- numeric to integer
@fn convert into_signed group=conv
@spec
    requires old(var).view().can(), old(var).digits.ok(), 0 <= old(var).ndigits <= old(var).digits.ds().len(), T::smax() >= 10000
    ensures int_conv(ret, old(var).view(), T::smin(), T::smax(), |v: T| v.ival())
@sub std :: mem :: size_of :: < T >() >= std :: mem :: size_of :: < NumericDigit >() ==> T::size__() >= 2
@sub val == T :: MIN_VALUE ==> val.eq__(T::MIN_VALUE)
@at begin
    let ghost v0 = *var; let ghost x = round_iv(var.iv(), 0);
    proof { T::ZERO.sbound(); T::zero_is(); lemma_can_facts(var.view()); lemma_U(0); lemma_pt(KK); }
@at let ndigits
    let ghost s = var.sd(); let ghost w = var.weight as int;
    proof { lemma_round_facts(v0.iv(), 0); lemma_U(0); lemma_dvd_neg(U(0), x); assert(var.iv() == x); lemma_ppos(KK); lemma_div_unique(0, p(KK), 0, 0); }
@at let weight
    proof { lemma_int_digits(s, w); }
    let ghost u = crate::val(s, w); let ghost neg = var.sign == 0x4000;
    proof { assert(x == (if neg { -u } else { u }) * p(KK)) by { assert((-u) * p(KK) == -(u * p(KK))) by (nonlinear_arith); }
        lemma_div_unique(x, p(KK), if neg { -u } else { u }, 0); lemma_val_step(s, 0); lemma_val_empty0(s); }
@at inv 0
    invariant 1 <= it__0 <= w + 1, hi__0 == w + 1, weight == w, 0 <= w <= 98001, digs(s), s.len() == ndigits, digits@ == s, ndigits <= w + 1, ndigits >= 1, s[0] > 0,
        T::smax() >= 10000, T::smin() == -T::smax() - 1, T::MIN_VALUE.ival() == T::smin(), u == crate::val(s, w), x / p(KK) == (if neg { -u } else { u }),
        val.ival() == -crate::val(s, it__0 - 1), crate::val(s, it__0 - 1) >= 1, !v0.view().nan, x == round_iv(v0.iv(), 0), v0 == *old(var),
        var.sign == (if neg { 0x4000u16 } else { 0u16 }),
    decreases hi__0 - it__0
@at body 0
    proof { lemma_val_step(s, i as int); lemma_val_prefix(s, i as int, w); val.sbound(); }
@at let new_val_overflowing
    proof { lemma_val_prefix(s, i as int, w); new_val.sbound(); }
@at after 0
    proof { val.sbound(); }

@fn convert into_unsigned group=conv
@spec
    requires old(var).view().can(), old(var).digits.ok(), 0 <= old(var).ndigits <= old(var).digits.ds().len(), T::umax() >= 10000
    ensures int_conv(ret, old(var).view(), 0, T::umax(), |v: T| v.ival())
@sub std :: mem :: size_of :: < T >() >= std :: mem :: size_of :: < NumericDigit >() ==> T::size__() >= 2
@at begin
    let ghost v0 = *var; let ghost x = round_iv(var.iv(), 0);
    proof { T::ZERO.bound(); T::zero_is(); lemma_can_facts(var.view()); lemma_U(0); lemma_pt(KK); }
@at let ndigits
    let ghost s = var.sd(); let ghost w = var.weight as int;
    proof { lemma_round_facts(v0.iv(), 0); lemma_U(0); lemma_dvd_neg(U(0), x); assert(var.iv() == x); lemma_ppos(KK); lemma_div_unique(0, p(KK), 0, 0);
        if ndigits > 0 { lemma_int_digits(s, w); let u = crate::val(s, w); let y = if var.sign == 0x4000 { -u } else { u };
        assert(x == y * p(KK)) by { assert((-u) * p(KK) == -(u * p(KK))) by (nonlinear_arith); }
        lemma_div_unique(x, p(KK), y, 0); lemma_val_step(s, 0); lemma_val_empty0(s); lemma_val_prefix(s, 0, w); } }
@at let weight
    let ghost u = crate::val(s, w);
@at inv 0
    invariant 1 <= it__0 <= w + 1, hi__0 == w + 1, weight == w, 0 <= w <= 98001, digs(s), s.len() == ndigits, digits@ == s, ndigits <= w + 1, ndigits >= 1, s[0] > 0,
        T::umax() >= 10000, u == crate::val(s, w), x / p(KK) == u,
        val.ival() == crate::val(s, it__0 - 1), crate::val(s, it__0 - 1) >= 1, !v0.view().nan, x == round_iv(v0.iv(), 0), v0 == *old(var),
    decreases hi__0 - it__0
@at body 0
    proof { lemma_val_step(s, i as int); lemma_val_prefix(s, i as int, w); val.bound(); }
@at after 0
    proof { val.bound(); }

@each T,F=u16,unsigned|u32,unsigned|u64,unsigned|u128,unsigned|i16,signed|i32,signed|i64,signed|i128,signed
@fn convert {T}::try_from trait=TryFrom<NumericVar<'a>> as=try_from__{T} free group=conv
@spec
    requires value.view().can(), value.digits.ok(), 0 <= value.ndigits <= value.digits.ds().len()
    ensures int_conv(ret, value.view(), {T}::MIN as int, {T}::MAX as int, |v: {T}| v as int)
@end
@each T,F=u8,u16|i8,i16
@fn convert {T}::try_from trait=TryFrom<NumericVar<'a>> as=try_from__{T} free group=conv
@spec
    requires value.view().can(), value.digits.ok(), 0 <= value.ndigits <= value.digits.ds().len()
    ensures int_conv(ret, value.view(), {T}::MIN as int, {T}::MAX as int, |v: {T}| v as int)
@sub TryInto :: < {F} > :: try_into(value) ==> try_from__{F}(value)
@end
@each T,F,G=usize,u64,u32|isize,i64,i32
@fn convert {T}::try_from trait=TryFrom<NumericVar<'a>> as=try_from__{T} free group=conv
@spec
    requires value.view().can(), value.digits.ok(), 0 <= value.ndigits <= value.digits.ds().len()
    ensures int_conv(ret, value.view(), {T}::MIN as int, {T}::MAX as int, |v: {T}| v as int)
@sub TryInto :: < {F} > :: try_into(value) ==> try_from__{F}(value)
@sub TryInto :: < {G} > :: try_into(value) ==> try_from__{G}(value)
@end
@each T=u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize
@fn convert {T}::try_from trait=TryFrom<NumericBuf> as=try_from_buf__{T} free group=conv
@spec
    requires value.can()
    ensures int_conv(ret, value.nv(), {T}::MIN as int, {T}::MAX as int, |v: {T}| v as int)
@sub TryFrom :: try_from( ==> try_from__{T}(
@fn convert {T}::try_from trait=TryFrom<&NumericBuf> as=try_from_bufref__{T} free group=conv
@spec
    requires value.can()
    ensures int_conv(ret, value.nv(), {T}::MIN as int, {T}::MAX as int, |v: {T}| v as int)
@sub TryFrom :: try_from( ==> try_from__{T}(
@fn convert {T}::try_from trait=TryFrom<&NumericVar<'a>> as=try_from_varref__{T} free group=conv
@spec
    requires value.view().can(), value.digits.ok(), 0 <= value.ndigits <= value.digits.ds().len()
    ensures int_conv(ret, value.view(), {T}::MIN as int, {T}::MAX as int, |v: {T}| v as int)
@at let var
    proof { assert(var.view() == value.view()); }
@sub TryFrom :: try_from( ==> try_from__{T}(
@fn convert {T}::try_from trait=TryFrom<&Numeric> as=try_from_ref__{T} free group=conv
@spec
    requires value.can()
    ensures int_conv(ret, value.nv(), {T}::MIN as int, {T}::MAX as int, |v: {T}| v as int)
@sub TryFrom :: try_from( ==> try_from__{T}(
@end
