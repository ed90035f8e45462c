## division with quotient digits estimated in floating point (used by the square root)
@fn var NumericVar::div_fast_common rlimit=100 spinoff
@spec
    requires self.st(), other.st(), fnz(self), div_sz(self, 45000), div_sz(other, 45000), 0 <= rscale <= 12000, self.weight - other.weight <= 45000, round
    ensures other.ndigits == 0 || other.sd()[0] == 0 <==> ret is None,
        ret matches Some(r) ==> r.st() && r.norm() && r.dscale == rscale && dvd(U(rscale as int), r.mag()) && other.mag() > 0 && fast_err(self.mag(), other.mag(), r.mag(), rscale as int)
            && r.iv() == (if self.sign == other.sign { r.mag() } else { -r.mag() })
            && (r.ndigits > 0 ==> r.weight <= self.weight - other.weight + 2)
            && (r.ndigits > 0 ==> p(r.weight + KK) <= r.mag()),
@at begin
    proof { lemma_round_dvd(0, rscale as int); }
    let ghost s1 = self.sd(); let ghost w1 = self.weight as int; let ghost n1 = self.ndigits as int; let ghost s2 = other.sd(); let ghost w2 = other.weight as int; let ghost n2 = other.ndigits as int;
    proof { lemma_val_bounds(s2, w2 + KK); lemma_fast_zero(other.mag(), rscale as int); if n1 == 0 { lemma_val_empty(s1, w1 + KK); } if n2 > 0 && s2[0] != 0 { lemma_val_first(s2, w2 + KK); lemma_ppos(w2 + KK); } assert(other.digits.ds().len() > 0 ==> n2 > 0 ==> s2[0] == other.digits.ds()[0]); }
@at let div_ndigits
    let ghost N = div_ndigits as int; let ghost b = val(s2, n2 - 1); let ghost pp = p(n2 - 1); let ghost dd = hs(s2, 4); let ghost v1 = val(s1, n1 - 1);
    proof { assert(4 <= N <= 60000 && N >= n1 && N >= w1 - w2 + 2 + (rscale + 3) / 4 + 4); lemma_hs(s2); lemma_hs_ok(s2); lemma_val_first(s1, n1 - 1); lemma_val_bounds(s1, n1 - 1); lemma_ppos(n2 - 1); }
@at let div
    proof { assert forall|i: int| 0 <= i <= N implies #[trigger] div@[i] == 0 by {} }
@at inv 0
    invariant 0 <= it__0 <= n1, hi__0 == n1, n1 <= N, div@.len() == N + 1, var1_digits@ == s1, s1.len() == n1, digs(s1), N <= 60000,
        forall|i: int| 0 <= i <= N ==> #[trigger] div@[i] == (if 1 <= i <= it__0 { s1[i - 1] as int } else { 0 }),
    decreases hi__0 - it__0
@at after 0
    let ghost D0 = div@; let ghost tp = lo32(D0, N, N + 1) * pp;
    proof { lemma_fast_init(D0, s1, n1, N, dd, b, pp); }
@at before 1
    proof { lemma_hs(s2); assert(rv(fdivisor) == s2[0] as real); }
@at inv 1
    invariant 1 <= it__1 <= 4, hi__1 == 4, var2_digits@ == s2, s2.len() == n2, n2 == var2_ndigits, digs(s2), n2 >= 1, fin(fdivisor), rabs(rv(fdivisor) - hs(s2, it__1 as int) as real) <= fd(it__1 as int),
        dd == hs(s2, 4),
    decreases hi__1 - it__1
@at top 1
    let ghost f0 = fdivisor;
@at set fdivisor
    let ghost f1 = fdivisor;
@at bot 1
    proof { lemma_hs(s2); let c = at(s2, i as int); lemma_fstep2(rv(f0), rv(f1), rv(fdivisor), hs(s2, i as int), c, i as int); reveal_with_fuel(hs, 2); assert(hs(s2, i + 1) == hs(s2, i as int) * 10000 + c); }
@at after 1
    proof { ax_lit(); lemma_fdiv_safe(rv(fdivisor)); }
@at let fdivisor_inverse
    let ghost inv = rv(fdivisor_inverse);
    proof { lemma_finv(rv(fdivisor), dd, inv); }
@at inv 2
    invariant 0 <= it__2 <= N, hi__2 == N, 4 <= N <= 60000, N == div_ndigits, div@.len() == N + 1, var2_digits@ == s2, s2.len() == n2, n2 == var2_ndigits, digs(s2), n2 >= 1, s2[0] >= 1, dd == hs(s2, 4), d_ok(dd), b == val(s2, n2 - 1), pp == p(n2 - 1),
        fin(fdivisor_inverse), inv == rv(fdivisor_inverse), 0real < inv <= 1real / 400000000000real, rabs(inv * (dd as real) - 1real) <= 1real / 40000000000real,
        1 <= max_div <= 214748, forall|j: int| it__2 < j <= N ==> 0 <= #[trigger] div@[j] + max_div * 9999 && div@[j] <= max_div * 9999, forall|j: int| 0 <= j < it__2 ==> -1 <= #[trigger] div@[j] <= 10002,
        head_ok(hd(div@, it__2 as int, 4), dd, it__2 as int, N), fval(div@, tp, b, pp, it__2 as int, N),
    decreases hi__2 - it__2
@at body 2
    let ghost D = div@; let ghost mut C = div@; let ghost h = hd(D, qi as int, 4); let ghost md0 = max_div as int;
    proof { lemma_head_relax(h, h, dd, qi as int, N); lemma_fast_cell(D, dd, qi as int, N); lemma_fhb(D, qi as int); lemma_hd(D, qi as int); }
@at inv 3
    invariant 1 <= it__3 <= 4, hi__3 == 4, div@ == D, D.len() == N + 1, 0 <= qi < N, N == div_ndigits, N <= 60000, fhb(D, qi as int), h == hd(D, qi as int, 4),
        fin(fdividend), rabs(rv(fdividend) - hd(D, qi as int, it__3 as int) as real) <= fe(it__3 as int),
    decreases hi__3 - it__3
@at top 3
    let ghost f0 = fdividend;
@at set fdividend
    let ghost f1 = fdividend;
    proof { let c = at32(D, qi + i); lemma_fstep1(rv(f0), rv(f1), rv(f1) + c as real, hd(D, qi as int, i as int), c, i as int); }
@at bot 3
    proof { let c = at32(D, qi + i); lemma_fstep1(rv(f0), rv(f1), rv(fdividend), hd(D, qi as int, i as int), c, i as int); reveal_with_fuel(hd, 2); assert(hd(D, qi as int, i + 1) == hd(D, qi as int, i as int) * 10000 + c); }
@at after 3
    proof { assert(fqb(h, dd)); lemma_fq0(rv(fdividend), h, dd, inv); }
@at let fquotient
    proof { ax_lit(); lemma_fq(rv(fdividend), h, dd, inv, rv(fquotient)); }
@at let qdigit
    proof { lemma_fdigit(rv(fquotient), h, dd, qdigit as int); lemma_fast_q(h, dd, qdigit as int, qi as int, N); }
@at then 9
    let ghost md1 = max_div as int;
@at let carry
    proof { lemma32_0(D, N, 0); assert(0 * p(0) == 0); }
@at inv 4
    invariant lo__4 == qi + 1, qi < it__4 <= N + 1, 0 <= qi < N, 4 <= N <= 60000, div@.len() == N + 1, D.len() == N + 1, -214748 <= carry <= 214748,
        forall|j: int| 0 <= j < it__4 ==> div@[j] == D[j], forall|j: int| it__4 <= j <= N ==> 0 <= #[trigger] div@[j] <= 9999,
        forall|j: int| qi < j <= N ==> -2147265252 <= #[trigger] D[j] <= 2147265252,
        lo32(div@, N, N + 1 - it__4) + carry * p(N + 1 - it__4) == lo32(D, N, N + 1 - it__4),
    decreases it__4
@at top 4
    let ghost e0 = div@; let ghost cc = carry as int;
@at body 4
    proof { assert(-2147265252 <= D[i as int] <= 2147265252); assert(div@[i as int] == D[i as int]); }
@at bot 4
    proof { let x = div@[i as int]; assert(div@ =~= e0.update(i as int, x)); assert(x + 10000 * carry == D[i as int] + cc); lemma_carry32(e0, div@, D, i as int, N, cc, carry as int); }
@at after 4
    let ghost e1 = div@;
@at set *div_qi
    proof { C = e1.update(qi as int, new_dig); lemma_carry32(e1, C, D, qi as int, N, carry as int, 0); assert(0 * p(N - qi + 1) == 0); lemma_norm_head(D, C, qi as int, N); lemma_fval_norm(D, C, tp, b, pp, qi as int, N); }
    let ghost h2 = hd(C, qi as int, 4);
    proof { lemma_head_relax(h, h2, dd, qi as int, N); lemma_fast_cell(C, dd, qi as int, N); lemma_fhb(C, qi as int); lemma_hd(C, qi as int); }
@at inv 5
    invariant 1 <= it__5 <= 4, hi__5 == 4, div@ == C, C.len() == N + 1, 0 <= qi < N, N == div_ndigits, N <= 60000, fhb(C, qi as int), h2 == hd(C, qi as int, 4),
        fin(fdividend), rabs(rv(fdividend) - hd(C, qi as int, it__5 as int) as real) <= fe(it__5 as int),
    decreases hi__5 - it__5
@at top 5
    let ghost f0 = fdividend;
@at set fdividend#4
    let ghost f1 = fdividend;
    proof { let c = at32(C, qi + i); lemma_fstep1(rv(f0), rv(f1), rv(f1) + c as real, hd(C, qi as int, i as int), c, i as int); }
@at bot 5
    proof { let c = at32(C, qi + i); lemma_fstep1(rv(f0), rv(f1), rv(fdividend), hd(C, qi as int, i as int), c, i as int); reveal_with_fuel(hd, 2); assert(hd(C, qi as int, i + 1) == hd(C, qi as int, i as int) * 10000 + c); }
@at after 5
    proof { assert(fqb(h2, dd)); lemma_fq0(rv(fdividend), h2, dd, inv); }
@at set fquotient
    proof { ax_lit(); lemma_fq(rv(fdividend), h2, dd, inv, rv(fquotient)); }
@at set qdigit
    proof { lemma_fdigit(rv(fquotient), h2, dd, qdigit as int); lemma_fast_q(h2, dd, qdigit as int, qi as int, N); }
@at then 14
    let ghost aq = if qdigit >= 0 { qdigit as int } else { -qdigit as int };
@at inv 6
    invariant 0 <= it__6 <= hi__6, hi__6 <= n2, qi + hi__6 <= N + 1, div@.len() == N + 1, C.len() == N + 1, var2_digits@ == s2, s2.len() == n2, digs(s2), 0 <= qi < N, N <= 60000, -1 <= qdigit <= 10002,
        aq == (if qdigit >= 0 { qdigit as int } else { -qdigit as int }), 1 + aq <= max_div <= 214748,
        -101000000 <= C[qi as int] <= 101000000, forall|j: int| qi < j <= N ==> 0 <= #[trigger] C[j] + (max_div - aq) * 9999 && C[j] <= (max_div - aq) * 9999,
        forall|j: int| qi <= j < qi + it__6 ==> #[trigger] div@[j] == C[j] - qdigit * s2[j - qi], forall|j: int| 0 <= j < qi || qi + it__6 <= j <= N ==> div@[j] == C[j],
    decreases hi__6 - it__6
@at body 6
    proof { let z = s2[i as int] as int; let j = qi + i; lemma_fast_sub(qdigit as int, z, aq, max_div as int); assert(div@[j] == C[j]); }
@at let div_qi#2
    let ghost C1 = div@; let ghost q = qdigit as int;
    proof {
        assert(NBASE as i64 == 10000); assert(div_qi == C1[qi as int]); assert(div_qi as i64 * 10000 == 10000 * C1[qi as int]);
        lemma_fast_row(C, C1, s2, n2, q, qi as int, N, max_div as int);
        lemma_fast_head(C, C1, s2, dd, q, qi as int, N, C1[qi + 1] + 10000 * C1[qi as int]);
    }
@at bot 2
    proof {
        let C2 = div@; let nx = C1[qi + 1] + 10000 * C1[qi as int];
        lemma_fast_fold(D, C, C1, C2, q, qi as int, N, nx, md0);
        lemma_fast_val(C, C1, C2, s2, n2, q, qi as int, N, tp, b, pp); lemma_hd(C2, qi + 1);
        assert(hd(C2, qi + 1, 4) == nx * 1000000000000 + at32(C1, qi + 2) * 100000000 + at32(C1, qi + 3) * 10000 + at32(C1, qi + 4));
    }
@at before 7
    let ghost D = div@; let ghost h = hd(D, N, 4);
    proof { lemma_head_relax(h, h, dd, N, N); lemma_fast_cell(D, dd, N, N); lemma_fhb(D, N); lemma_hd(D, N); }
@at inv 7
    invariant 1 <= it__7 <= 4, hi__7 == 4, div@ == D, D.len() == N + 1, fhb(D, N), h == hd(D, N, 4), fin(fdividend), rabs(rv(fdividend) - hd(D, N, it__7 as int) as real) <= fe(it__7 as int),
    decreases hi__7 - it__7
@at top 7
    let ghost f0 = fdividend;
@at bot 7
    proof { let i = it__7 - 1; lemma_fstep1(rv(f0), rv(fdividend), rv(fdividend), hd(D, N, i), 0, i); reveal_with_fuel(hd, 2); assert(hd(D, N, i + 1) == hd(D, N, i) * 10000 + 0); }
@at after 7
    proof { assert(fqb(h, dd)); lemma_fq0(rv(fdividend), h, dd, inv); }
@at let fquotient#2
    proof { ax_lit(); lemma_fq(rv(fdividend), h, dd, inv, rv(fquotient)); }
@at let qdigit#2
    proof { lemma_fdigit(rv(fquotient), h, dd, qdigit as int); lemma_fast_q(h, dd, qdigit as int, N, N); }
@at let result
    let ghost F = div@; let ghost qf = lo32(F, N, N + 1);
    proof { assert(F =~= D.update(N, F[N])); lemma_fast_last(D, F, s2, n2, dd, qdigit as int, N, tp, b, pp); lemma_fast_range(qf, lo32(D0, N, N + 1), b, pp, N, n1, v1); }
@at let carry#2
    proof { lemma_lo0(res_digits@, N, 0); lemma32_0(F, N, 0); assert(0 * p(0) == 0); }
@at inv 8
    invariant lo__8 == 0, 0 <= it__8 <= N + 1, N <= 60000, div@ == F, F.len() == N + 1, res_digits@.len() == N + 1, -1 <= carry <= 3,
        forall|j: int| 0 <= j <= N ==> -3 <= #[trigger] F[j] <= 21001, forall|j: int| it__8 <= j <= N ==> 0 <= #[trigger] res_digits@[j] < 10000,
        lo(res_digits@, N, N + 1 - it__8) + carry * p(N + 1 - it__8) == lo32(F, N, N + 1 - it__8),
    decreases it__8
@at top 8
    let ghost e0 = res_digits@; let ghost cc = carry as int;
@at body 8
    proof { assert(-3 <= F[i as int] <= 21001); }
@at bot 8
    proof { let x = res_digits@[i as int]; assert(res_digits@ =~= e0.update(i as int, x)); assert(x + 10000 * carry == F[i as int] + cc); lemma_carry16(e0, res_digits@, F, i as int, N, cc, carry as int); }
@at after 8
    let ghost fz = res_digits@;
    proof { lemma_lo_bounds(fz, N, N + 1); lemma_fast_nocarry(val(fz, N), carry as int, qf, N); }
@at call round_common
    proof { assert(result.sd() =~= fz); lemma_fast_finish(s1, w1, s2, w2, fz, N, rscale as int, self.mag(), other.mag()); lemma_round_dvd(V(fz, w1 - w2 + 1), rscale as int); }

## the square root: Newton's iteration with results rounded to rscale + 8 digits
@fn var lazy_ZERO_POINT_FIVE
@spec
    ensures ret.st(), ret.norm(), ret.mag() == 5000 * p(KK - 1), ret.ndigits == 1, ret.weight == -1, ret.dscale == 1, ret.sign == 0
@at end
    proof { assert(ret__.sd() =~= seq![5000i16]); lemma_val_one(ret__.sd(), -1, 0); }

@fn var NumericVar::sqrt_common
@spec
    requires self.st(), fnz(self), self.sign == 0, div_sz(self, 40000), -16384 <= self.weight <= 32767, 0 <= rscale <= 10000, rscale > 1000 ==> self.weight <= 30000
    ensures ret.st(), ret.sign == 0, ret.ndigits > 0 ==> ret.ndigits - 1 - ret.weight <= (rscale + 11) / 4 && ret.weight >= -8192, 10000 * U(rscale as int) <= ret.mag() ==> fnz(&ret), ret.dscale == rscale, ret.weight <= 40000, dvd(U(rscale as int), ret.mag()), sq_err(self.mag(), ret.mag(), rscale as int)
@at begin
    let ghost x = self.mag(); let ghost rs = rscale as int; let ghost ls = rs + 8;
    proof { lemma_round_dvd(0, rs); lemma_val_bounds(self.sd(), self.weight + KK); if self.ndigits == 0 { lemma_val_empty(self.sd(), self.weight + KK); lemma_sq_zero(rs); } }
@at let last_val
    let ghost A0 = result.mag(); let ghost mut ph = 2int;
    proof { lemma_val_first(result.sd(), result.weight + KK); lemma_ppos(result.weight + KK); lemma_pmono(result.weight + 1 + KK, 33030 + KK); lemma_val_bounds(result.sd(), result.weight + KK); }
@at inv 0
    invariant_except_break last_val.iv() == result.mag(), 0 <= ph <= 2, ph <= 1 ==> dvd(U(ls), result.mag()) && sq_low(x * p(KK), U(ls), result.mag()), ph == 0 ==> sq_up(x * p(KK), U(ls), prev_val.iv()) && result.mag() == prev_val.iv() + U(ls),
    invariant dvd(U(rs), 0), x >= 0, result.ndigits - 1 - result.weight <= 8192, self.st(), fnz(self), self.sign == 0, div_sz(self, 40000), -16384 <= self.weight <= 32767, 0 <= rs <= 10000, rs > 1000 ==> self.weight <= 30000, rs == rscale, ls == rs + 8, local_rscale == ls, self.ndigits > 0, x == self.mag(),
        result.st(), result.norm(), result.sign == 0, result.ndigits > 0, result.dscale <= 12000, sz(&result, 45000), -8192 <= result.weight <= 33030, p(result.weight + KK) <= result.mag(), self.weight - result.weight <= 33020, 0 < result.mag() <= p(33030 + KK),
        last_val.st(), last_val.ndigits > 0 ==> last_val.mag() > 0, prev_val.st(), prev_val.ndigits > 0 ==> prev_val.mag() > 0,
        prev_val.iv() == result.mag() || (prev_val.iv() > 0 && nstep(x, prev_val.iv(), result.mag(), ls)),
    ensures result.st(), result.norm(), result.sign == 0, -8192 <= result.weight <= 33030, result.ndigits - 1 - result.weight <= (ls + 3) / 4, result.mag() > 0, p(result.weight + KK) <= result.mag(), sq_near(x, result.mag(), ls)
    decreases ph, result.mag()
@at body 0
    let ghost A = result.mag(); let ghost C = prev_val.iv(); let ghost wr = result.weight as int;
@at let val
    let ghost v = val.mag();
    proof { lemma_val_bounds(val.sd(), val.weight + KK); if val.ndigits > 0 { lemma_norm_frac(val.sd(), val.weight as int, ls); } else { lemma_val_empty(val.sd(), val.weight + KK); } lemma_pmono(val.weight + 1 + KK, 33029 + KK); }
@at set result
    let ghost S = result;
    proof { lemma_val_bounds(S.sd(), S.weight + KK); assert(S.iv() == A + v); if S.ndigits == 0 { lemma_val_empty(S.sd(), S.weight + KK); } if S.weight < wr { lemma_pmono(S.weight + 1 + KK, wr + KK); } }
@at set result#2
    let ghost B = result.mag();
    proof {
        lemma_val_bounds(result.sd(), result.weight + KK);
        lemma_sqrt_step(x, A, v, B, ls, imin(S.ndigits as int, 1));
        if result.ndigits == 0 { lemma_val_empty(result.sd(), result.weight + KK); lemma_sqrt_zero(x, A, B, rs, ls); }
        else { lemma_norm_frac(result.sd(), result.weight as int, ls); lemma_sqrt_size(A, v, B, ls, result.weight as int); lemma_ppos(result.weight + KK); }
        if B == A || B == C { lemma_sqrt_fix(x, C, A, B, ls); }
        else {
            lemma_sq_low(x, A, v, B, ls); 
            if ph == 0 { lemma_sq_back(x, C, A, v, B, ls); }
            else if ph == 2 { ph = 1; }
            else if B > A { lemma_sq_up(x, A, v, B, ls); ph = 0; }
        }
    }
@at after 0
    let ghost R9 = result.mag(); let ghost w9 = result.weight as int;
@at end-pre
    proof { lemma_sqrt_final(x, R9, rs); lemma_round_dvd(R9, rs); lemma_sqrt_fnz(result.sd(), result.weight as int, R9, w9, rs); }

@fn var NumericVar::sqrt
@spec
    requires self.can(), self.sign == 0
    ensures ret.st(), ret.sign == 0, ret.dscale == sqrt_scale(self.view()), fits(ret.mag(), ret.dscale as int), ret.mag() >= 0, dvd(U(ret.dscale as int), ret.mag()), sq_err(self.mag(), ret.mag(), ret.dscale as int)
@at begin
    proof { lemma_var_can(self); lemma_can_facts(self.view()); }
@at end
    proof { lemma_val_bounds(ret__.sd(), ret__.weight + KK); lemma_sqrt_fits(self.mag(), ret__.mag(), ret__.dscale as int); }

@fn num Numeric::sqrt
@panics "cannot take square root of a negative number" !self.nv().nan && self.nv().iv() < 0
@spec
    requires self.can()
    ensures self.nv().nan ==> ret.nv() == nan_view(), ret.can(),
        !self.nv().nan ==> self.nv().iv() >= 0 && ({
            let ds = sqrt_scale(self.nv());
            &&& !ret.nv().nan && ret.nv().dscale == ds && ret.nv().iv() >= 0 && sq_err(self.nv().iv(), ret.nv().iv(), ds)
            &&& 0 <= ds <= 1000 && (ds == 1000 || ds >= self.nv().dscale)
        })
@at begin
    proof { lemma_can_facts(self.nv()); }
