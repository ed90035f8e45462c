## multiplication
@fn var NumericVar::mul_common
@spec
    requires self.st(), other.st(), mul_sz(self, other, rscale as int)
    ensures ret.st(), ret.norm(), ret.dscale == rscale,
        mul_ok(self, other, rscale as int) ==> mul_exact(self.mag(), other.mag()) && ret.mag() == roundm(mulm(self.mag(), other.mag()), rscale as int),
        mul_near(self.mag(), other.mag(), ret.mag(), rscale as int, imin(self.ndigits as int, other.ndigits as int)), dvd(U(rscale as int), ret.mag()),
        ret.iv() == (if self.sign == other.sign { ret.mag() } else { -ret.mag() }),
        ret.ndigits > 0 ==> ret.weight <= self.weight + other.weight + 3 && ret.ndigits <= self.ndigits + other.ndigits + 2
            && ret.ndigits - 1 - ret.weight <= self.ndigits - 1 - self.weight + other.ndigits - 1 - other.weight,
        ret.ndigits > 0 ==> p(ret.weight + KK) <= ret.mag(),
@at begin
    proof { lemma_round_dvd(0, rscale as int); }
@at let var2_digits
    let ghost s1 = var1.sd(); let ghost s2 = var2.sd(); let ghost n1 = var1_ndigits as int; let ghost n2 = var2_ndigits as int; let ghost w1 = var1.weight as int; let ghost w2 = var2.weight as int;
    let ghost v2 = val(s2, n2 - 1);
    proof { lemma_mul_views(s1, var1.weight as int, s2, var2.weight as int); lemma_mulm_sym(self.mag(), other.mag()); lemma_round_zero(rscale as int);
        lemma_val_bounds(s1, n1 - 1); lemma_val_bounds(s2, n2 - 1); lemma_padd(n1, n2); lemma_pS(n1 + n2 + 1); if n1 == 0 || n2 == 0 || w1 + w2 + 3 + (rscale + 3) / 4 + 2 < 3 { lemma_mul_small(s1, w1, s2, w2, rscale as int, n1); lemma_mul_near_sym(var1.mag(), var2.mag(), 0, rscale as int, n1); } }
@at let res_ndigits
    let ghost N = res_ndigits as int; let ghost K = n1 + n2 + 1 - N; let ghost pk = p(K);
    proof { assert(K >= 0); assert(K > 0 ==> N == w1 + w2 + 3 + (rscale + 3) / 4 + 2); assert(mul_ok(self, other, rscale as int) ==> K == 0); lemma_ppos(K); }
@at let dig
    proof { assert forall|j: int| 0 <= j < N implies #[trigger] at32(dig@, N - 1 - j) == 0 by {} lemma32_zero(dig@, N - 1, N); lemma_lo0(s1, n1 - 1, 0); assert(0 * v2 == 0); }
@at before 0
    let ghost B = it__0 as int; let ghost mut err = lo(s1, n1 - 1, n1 - B) * v2;
    proof {
        assert(1 <= B <= n1 && (B == n1 || B == N - 2)); assert(0 * pk == 0); lemma_lo_bounds(s1, n1 - 1, n1 - B);
        if B == n1 { assert(err == 0); assert(0 <= 10000 * pk * 1); } else { lemma_padd(n1 - B, n2); lemma_pS(K + 1); assert(n1 - B + n2 == K + 1); let a = lo(s1, n1 - 1, n1 - B); let x = p(n1 - B); let y = p(n2);
            assert(0 <= a * v2 <= x * y) by (nonlinear_arith) requires 0 <= a < x, 0 <= v2 < y; assert(10000 * pk <= 10000 * pk * (n1 - B + 1)) by (nonlinear_arith) requires n1 - B >= 0, pk >= 0; }
    }
@at inv 0
    invariant lo__0 == 0, 0 <= it__0 <= B, B <= n1, B <= N - 2, K == 0 ==> B == n1, N == res_ndigits, N == n1 + n2 + 1 - K, K >= 0, pk == p(K), pk >= 1, 3 <= N, 1 <= n1 <= 99000, 1 <= n2 <= 99000, dig@.len() == 4 * N, digs(s1), digs(s2), s1.len() == n1, s2.len() == n2,
        var1_digits@ == s1, var2_digits@ == s2, var1_ndigits == n1, var2_ndigits == n2, v2 == val(s2, n2 - 1), 0 <= max_dig <= 214748,
        forall|j: int| 0 <= j < N ==> 0 <= #[trigger] dig@[j] <= max_dig * 9999,
        lo32(dig@, N - 1, N) * pk + err == lo(s1, n1 - 1, n1 - it__0) * v2, 0 <= err <= 10000 * pk * (n1 - it__0 + 1), K == 0 ==> err == 0,
        p(n1 + n2) == p(n1) * p(n2), 0 <= v2 < p(n2),
    decreases it__0
@at body 0
    let ghost c = n1 - 1 - i1; let ghost d0 = dig@;
    proof { lemma_loS(s1, n1 - 1, c); assert(at(s1, i1 as int) == s1[i1 as int]); lemma_lo_bounds(s1, n1 - 1, c); lemma_lo_bounds(s1, n1 - 1, c + 1); }
    let ghost acc = lo(s1, n1 - 1, c); let ghost err0 = err;
    proof { lemma_prod_bound(acc, v2, n1, n2, c); lemma_mul_nocarry(lo32(dig@, N - 1, N), pk, err, acc * v2, n1 + n2, N, K);
        assert(10000 * pk * (n1 - it__0) + 10000 * pk == 10000 * pk * (n1 - it__0 + 1)) by (nonlinear_arith); }
@at then 4
    proof { assert(0 * p(c) == 0); assert((acc + 0 * p(c)) * v2 == acc * v2); }
@at let carry
    proof { lemma32_0(dig@, N - 1, 0); assert(0 * p(0) == 0); }
@at inv 1
    invariant lo__1 == 0, 0 <= it__1 <= N, N == res_ndigits, N <= 200000, dig@.len() == 4 * N, d0.len() == 4 * N, 0 <= carry <= 214748,
        forall|j: int| 0 <= j < it__1 ==> dig@[j] == d0[j], forall|j: int| it__1 <= j < N ==> 0 <= #[trigger] dig@[j] <= 9999,
        forall|j: int| 0 <= j < N ==> 0 <= #[trigger] d0[j] <= 214748 * 9999,
        lo32(dig@, N - 1, N - it__1) + carry * p(N - it__1) == lo32(d0, N - 1, N - it__1),
    decreases it__1
@at top 1
    let ghost e0 = dig@; let ghost k1 = N - it__1; let ghost cc = carry as int;
@at body 1
    proof { assert(0 <= d0[i as int] <= 214748 * 9999); assert(dig@[i as int] == d0[i as int]); }
@at bot 1
    proof {
        let x = dig@[i as int]; assert(dig@ =~= e0.update(i as int, x)); lemma32_upd_out(e0, i as int, x, N - 1, k1);
        lemma32_S(dig@, N - 1, k1); lemma32_S(d0, N - 1, k1); lemma_pS(k1 + 1); let q = p(k1); let c1 = carry as int; let y = d0[i as int] as int;
        assert(x + 10000 * c1 == y + cc);
        assert(x * q + c1 * (10000 * q) == y * q + cc * q) by (nonlinear_arith) requires x + 10000 * c1 == y + cc;
    }
@at after 1
    proof { assert forall|j: int| 0 <= j < N implies 0 <= #[trigger] at32(dig@, N - 1 - j) <= 9999 by { let i = N - 1 - j; assert(0 <= dig@[i] <= 9999); } lemma32_bounds(dig@, N - 1, N); lemma_no_carry(lo32(dig@, N - 1, N), carry as int, N, lo32(d0, N - 1, N)); assert(0 * p(N) == 0); }
@at let i
    let ghost d1 = dig@; let ghost m0 = max_dig - var1_digit; let ghost f = var1_digit as int; let ghost m = bound + 1; let ghost cx = N - 2 - i1 - m; let ghost t0 = lo32(dig@, N - 1, N);
    proof { assert(1 <= m <= n2); assert(cx >= 0); assert(m == n2 ==> c == cx + K); assert(m < n2 ==> cx == 0 && n2 - m + c == K); lemma_lo0(s2, m - 1, 0); assert(f * 0 == 0); assert((f * 0) * p(cx) == 0); assert(t0 == lo32(d0, N - 1, N)); 
        assert forall|j: int| 0 <= j < N implies 0 <= #[trigger] dig@[j] <= m0 * 9999 by {} }
@at inv 2
    invariant lo__2 == 0, 0 <= it__2 <= m, 1 <= m <= n2, cx == N - 2 - i1 - m, cx >= 0, i == i1 + it__2 + 1, 0 <= i1 < n1, 1 <= n1 <= 99000, 1 <= n2 <= 99000, dig@.len() == 4 * N, digs(s2), s2.len() == n2,
        var2_digits@ == s2, 0 <= m0, m0 + f == max_dig, max_dig <= 214748, f == var1_digit, 0 < f <= 9999,
        forall|j: int| 0 <= j <= i ==> 0 <= #[trigger] dig@[j] <= m0 * 9999, forall|j: int| 0 <= j < N ==> 0 <= #[trigger] dig@[j] <= max_dig * 9999,
        lo32(dig@, N - 1, N) == t0 + (f * lo(s2, m - 1, m - it__2)) * p(cx),
    decreases it__2
@at top 2
    let ghost e0 = dig@; let ghost i0 = i as int;
@at body 2
    proof { let z = s2[i2 as int] as int; assert(0 <= f * z <= f * 9999) by (nonlinear_arith) requires 0 <= z <= 9999, f > 0; assert(0 <= e0[i0] <= m0 * 9999); assert(m0 * 9999 + f * 9999 == max_dig * 9999) by (nonlinear_arith) requires m0 + f == max_dig; }
@at bot 2
    proof {
        let z = s2[i2 as int] as int; let k = m - 1 - i2; let x = dig@[i0];
        assert(dig@ =~= e0.update(i0, x)); lemma32_upd(e0, i0, x, N - 1, N); lemma_loS(s2, m - 1, k); assert(at(s2, i2 as int) == z);
        lemma_padd(cx, k); let q = p(k); let pc = p(cx); let l = lo(s2, m - 1, k);
        assert(x - e0[i0] == f * z);
        assert((f * (l + z * q)) * pc == (f * l) * pc + (f * z) * (pc * q)) by (nonlinear_arith);
    }
@at after 2
    proof {
        let tail = lemma_mul_row(s2, n2, m, c, cx, K, f); let q = p(c); let g = (f * val(s2, m - 1)) * p(cx);
        assert((f * v2) * q + acc * v2 == (acc + f * q) * v2) by (nonlinear_arith); assert((t0 + g) * pk == t0 * pk + g * pk) by (nonlinear_arith); err = err0 + tail;
    }
@at let carry#2
    let ghost total = lo32(dig@, N - 1, N);
    proof { lemma_prod_bound(lo(s1, n1 - 1, n1), v2, n1, n2, n1); lemma_lo_bounds(s1, n1 - 1, n1); lemma_mul_nocarry(total, pk, err, lo(s1, n1 - 1, n1) * v2, n1 + n2, N, K); lemma32_0(dig@, N - 1, 0); lemma_lo0(res_digits@, N - 1, 0); assert(0 * p(0) == 0); }
@at inv 3
    invariant lo__3 == 0, 0 <= it__3 <= N, N == res_ndigits, N <= 200000, dig@.len() == 4 * N, 0 <= carry <= 214748, res_digits@.len() == N,
        forall|j: int| it__3 <= j < N ==> 0 <= #[trigger] res_digits@[j] <= 9999, max_dig <= 214748,
        forall|j: int| 0 <= j < N ==> 0 <= #[trigger] dig@[j] <= max_dig * 9999,
        lo(res_digits@, N - 1, N - it__3) + carry * p(N - it__3) == lo32(dig@, N - 1, N - it__3),
    decreases it__3
@at top 3
    let ghost e0 = res_digits@; let ghost k1 = N - it__3; let ghost cc = carry as int;
@at bot 3
    proof {
        let x = res_digits@[i as int]; assert(res_digits@ =~= e0.update(i as int, x)); lemma_lo_upd_out(e0, i as int, x, N - 1, k1);
        lemma_loS(res_digits@, N - 1, k1); lemma32_S(dig@, N - 1, k1); lemma_pS(k1 + 1); let q = p(k1); let c1 = carry as int; let y = dig@[i as int] as int;
        assert(x + 10000 * c1 == y + cc);
        assert(x * q + c1 * (10000 * q) == y * q + cc * q) by (nonlinear_arith) requires x + 10000 * c1 == y + cc;
    }
@at after 3
    let ghost fin = res_digits@;
    proof { lemma_lo_bounds(fin, N - 1, N); lemma_no_carry(lo(fin, N - 1, N), carry as int, N, total); assert(0 * p(N) == 0); }
@at call round_common
    proof { assert(result.sd() =~= fin);
        assert(1 * p(0) == 1) by { lemma_p0(); } if K == 0 { assert(total * 1 == total); lemma_p0(); lemma_mul_place(s1, w1, s2, w2, fin); }
        lemma_round_dvd(V(fin, w1 + w2 + 2), rscale as int); lemma_mul_near(s1, w1, s2, w2, fin, K, err, rscale as int); lemma_mul_near_sym(var1.mag(), var2.mag(), roundm(V(fin, w1 + w2 + 2), rscale as int), rscale as int, n1); }

@fn num Numeric::checked_mul
@spec
    requires self.can(), other.can()
    ensures self.nv().nan || other.nv().nan ==> some_nan(ret),
        !self.nv().nan && !other.nv().nan ==> mul_exact(self.nv().mag(), other.nv().mag()) && exact(ret, mul_iv(self.nv().iv(), other.nv().iv()), self.nv().dscale + other.nv().dscale)
@at begin
    proof { lemma_can_facts(self.nv()); lemma_can_facts(other.nv()); if !self.nv().nan && !other.nv().nan { lemma_mul_scale(self.nv(), other.nv()); } }
