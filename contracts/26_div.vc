## division
@fn var NumericVar::select_div_scale
@spec
    requires self.digits.ok(), other.digits.ok(), 0 <= self.ndigits <= self.digits.ds().len(), 0 <= other.ndigits <= other.digits.ds().len(), digs(self.sd()), digs(other.sd()),
        self.ndigits > 0 ==> self.sd()[0] != 0, other.ndigits > 0 ==> other.sd()[0] != 0,
        -100000 <= self.weight <= 100000, -100000 <= other.weight <= 100000, 0 <= self.dscale <= 200000, 0 <= other.dscale <= 200000
    ensures ret == div_scale(self.sd(), self.weight as int, self.dscale as int, other.sd(), other.weight as int, other.dscale as int)
@at inv 0
    invariant_except_break it__0 == 0, first_digit1 == 0, weight1 == 0,
    invariant hi__0 == self.ndigits, 0 <= self.ndigits, var1_digits@ == self.sd(), self.sd().len() == self.ndigits, self.ndigits > 0 ==> self.sd()[0] != 0,
    ensures self.ndigits > 0 ==> first_digit1 == self.sd()[0] && weight1 == self.weight, self.ndigits == 0 ==> first_digit1 == 0 && weight1 == 0,
    decreases hi__0 - it__0
@at inv 1
    invariant_except_break it__1 == 0, first_digit2 == 0, weight2 == 0,
    invariant hi__1 == other.ndigits, 0 <= other.ndigits, var2_digits@ == other.sd(), other.sd().len() == other.ndigits, other.ndigits > 0 ==> other.sd()[0] != 0,
    ensures other.ndigits > 0 ==> first_digit2 == other.sd()[0] && weight2 == other.weight, other.ndigits == 0 ==> first_digit2 == 0 && weight2 == 0,
    decreases hi__1 - it__1

@fn var NumericVar::div_common rlimit=100
@spec
    requires self.st(), other.st(), div_sz(self, 45000), div_sz(other, 45000), 0 <= rscale <= 150000, rscale <= 20000 || self.weight - other.weight <= 1000
    ensures other.ndigits == 0 || other.sd()[0] == 0 <==> ret is None,
        ret matches Some(r) ==> r.st() && r.norm() && r.dscale == rscale && other.mag() > 0
            && r.mag() == (if round { quot_round(self.mag(), other.mag(), rscale as int) } else { quot_trunc(self.mag(), other.mag(), rscale as int) })
            && r.iv() == (if self.sign == other.sign { r.mag() } else { -r.mag() })
            && (r.ndigits > 0 ==> r.weight <= self.weight - other.weight + 1)
            && (r.ndigits > 0 ==> p(r.weight + KK) <= r.mag()),
@at begin
    let ghost s1 = self.sd(); let ghost w1 = self.weight as int; let ghost n1 = self.ndigits as int; let ghost s2 = other.sd(); let ghost w2 = other.weight as int; let ghost n2 = other.ndigits as int;
    proof { lemma_quot_zero(other.mag(), rscale as int); lemma_val_bounds(s2, w2 + KK); if n1 == 0 { lemma_val_empty(s1, w1 + KK); } if n2 > 0 && s2[0] != 0 { lemma_val_first(s2, w2 + KK); lemma_ppos(w2 + KK); } assert(other.digits.ds().len() > 0 ==> n2 > 0 ==> s2[0] == other.digits.ds()[0]); }
@at let div_ndigits
    let ghost R = res_ndigits as int; let ghost DN = div_ndigits as int; let ghost b = val(s2, n2 - 1);
    proof { assert(R >= 1 && DN >= R + n2 && DN >= n1); }
@at let result
    let ghost D0 = dividend@; let ghost vv0 = divisor@; let ghost T = val(D0, DN);
    proof {
        assert(D0.len() == DN + 1); assert(vv0.len() == n2 + 1);
        assert forall|i: int| 0 <= i <= DN implies #[trigger] D0[i] == (if 1 <= i <= n1 { s1[i - 1] } else { 0 }) by {}
        assert forall|i: int| 0 <= i <= n2 implies #[trigger] vv0[i] == (if 1 <= i <= n2 { s2[i - 1] } else { 0 }) by {}
        lemma_div_setup(D0, s1, n1, DN); lemma_div_setup(vv0, s2, n2, n2); lemma_val_first(s2, n2 - 1); lemma_val_bounds(s2, n2 - 1);
    }
@at let res_digits
    let ghost mut fin = res_digits@;
@at let carry
    proof { lemma_loS(vv0, 1, 0); lemma_loS(vv0, 1, 1); lemma_lo0(vv0, 1, 0); lemma_p0(); assert(b == divisor1) by { lemma_loS(s2, 0, 0); lemma_lo0(s2, 0, 0); } lemma_val_empty0(res_digits@); lemma_loS(D0, 0, 0); lemma_lo0(D0, 0, 0); assert(0 * b == 0); assert(D0[0] == 0); }
@at inv 0
    invariant 0 <= it__0 <= R, hi__0 == R, R <= DN, dividend@ == D0, D0.len() == DN + 1, digs(D0), res_digits@.len() == R, b == divisor1, 1 <= b <= 9999, 0 <= carry < b,
        forall|i: int| 0 <= i < it__0 ==> 0 <= #[trigger] res_digits@[i] < 10000,
        val(D0, it__0 as int) == val(res_digits@, it__0 - 1) * b + carry,
    decreases hi__0 - it__0
@at body 0
    let ghost e0 = res_digits@; let ghost c0 = carry as int; let ghost x = D0[i + 1] as int;
    proof { assert(0 <= c0 * 10000 + x <= 9999 * 10000); assert(0 <= (c0 * 10000 + x) / (divisor1 as int) <= 9999) by (nonlinear_arith) requires 0 <= c0, c0 <= divisor1 - 1, 0 <= x <= 9999, divisor1 >= 1; }
@at bot 0
    proof {
        let y = c0 * 10000 + x; let q = y / b; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, b); assert(res_digits@ =~= e0.update(i as int, q as i16));
        lemma_val_step(D0, i + 1); lemma_val_step(res_digits@, i as int); assert(at(D0, i + 1) == x);
        assert forall|k: int| 0 <= k <= i - 1 implies at(e0, k) == #[trigger] at(res_digits@, k) by {} lemma_val_congr(e0, res_digits@, i - 1);
        let z = val(e0, i - 1);
        assert((10000 * z + q) * b == 10000 * (z * b) + b * q) by (nonlinear_arith);
    }
@at fi 4
    proof { fin = res_digits@; lemma_val_cut(D0, DN, R + 1); lemma_lo_bounds(D0, DN, DN - R); let z = val(res_digits@, R - 1); let q = p(DN - R); let l = lo(D0, DN, DN - R);
        assert((z * b + carry) * q == z * (b * q) + carry * q) by (nonlinear_arith); assert(0 <= carry * q + l < b * q) by (nonlinear_arith) requires 0 <= carry, carry <= b - 1, 0 <= l < q;
        lemma_div_unique(T, b * q, z, carry * q + l); }
@at else 4
    let ghost mut dd = 1int;
    proof { assert(1 * b == b); assert(1 * T == T); }
@at let d
    let ghost v1o = divisor@[1] as int;
    proof { dd = d as int; assert(v1o == s2[0]); lemma_norm_d(v1o, dd); assert(d >= 2); lemma_lo0(vv0, n2, 0); lemma_lo0(divisor@, n2, 0); assert(0 * p(0) == 0); assert(dd * 0 == 0); }
@at inv 1
    invariant lo__1 == 1, 1 <= it__1 <= n2 + 1, 2 <= n2 <= 45000, divisor@.len() == n2 + 1, vv0.len() == n2 + 1, digs(divisor@), digs(vv0), 2 <= d <= 5000, dd == d, 0 <= carry < d,
        forall|i: int| 0 <= i < it__1 ==> divisor@[i] == vv0[i],
        lo(divisor@, n2, n2 + 1 - it__1) + carry * p(n2 + 1 - it__1) == dd * lo(vv0, n2, n2 + 1 - it__1),
    decreases it__1
@at top 1
    let ghost e0 = divisor@; let ghost k1 = n2 + 1 - it__1; let ghost cc = carry as int;
@at body 1
    let ghost y = divisor@[i as int] as int;
    proof { assert(0 <= y * dd <= 9999 * dd) by (nonlinear_arith) requires 0 <= y <= 9999, dd >= 0; }
@at bot 1
    proof { let x = divisor@[i as int]; assert(divisor@ =~= e0.update(i as int, x)); lemma_lo_upd_out(e0, i as int, x, n2, k1); lemma_scale_step(divisor@, vv0, n2, k1, dd, cc, carry as int, lo(e0, n2, k1)); }
@at after 1
    proof { lemma_loS(divisor@, n2, n2); lemma_loS(vv0, n2, n2); lemma_lo_bounds(divisor@, n2, n2); assert(0 * p(n2) == 0); assert(at(vv0, 0) == 0); assert(at(divisor@, 0) == 0); assert(val(vv0, n2) == b); lemma_norm_v(s2, n2, dd); lemma_no_carry(lo(divisor@, n2, n2), carry as int, n2, dd * b); assert(val(divisor@, n2) == dd * b); }
@at before 2
    proof { lemma_lo0(D0, n1, 0); lemma_lo0(dividend@, n1, 0); assert(0 * p(0) == 0); assert(dd * 0 == 0); }
@at inv 2
    invariant lo__2 == 0, 0 <= it__2 <= n1 + 1, 1 <= n1 <= 45000, n1 <= DN, dividend@.len() == DN + 1, D0.len() == DN + 1, digs(dividend@), digs(D0), 2 <= d <= 5000, dd == d, 0 <= carry < d,
        forall|i: int| 0 <= i < it__2 || n1 < i <= DN ==> dividend@[i] == D0[i],
        lo(dividend@, n1, n1 + 1 - it__2) + carry * p(n1 + 1 - it__2) == dd * lo(D0, n1, n1 + 1 - it__2),
    decreases it__2
@at top 2
    let ghost e0 = dividend@; let ghost k1 = n1 + 1 - it__2; let ghost cc = carry as int;
@at body 2
    let ghost y = dividend@[i as int] as int;
    proof { assert(0 <= y * dd <= 9999 * dd) by (nonlinear_arith) requires 0 <= y <= 9999, dd >= 0; }
@at bot 2
    proof { let x = dividend@[i as int]; assert(dividend@ =~= e0.update(i as int, x)); lemma_lo_upd_out(e0, i as int, x, n1, k1); lemma_scale_step(dividend@, D0, n1, k1, dd, cc, carry as int, lo(e0, n1, k1)); }
@at after 2
    proof { lemma_norm_u(D0, dividend@, n1, DN, dd, carry as int); lemma_norm_top(divisor@, s2, n2, dd); }
@at let divisor1#2
    let ghost vv = divisor@; let ghost bb = val(vv, n2); let ghost TT = val(dividend@, DN);
@at before 3
    proof { lemma_norm_start(D0, dividend@, s2, n2, DN, dd); lemma_val_empty0(res_digits@); assert(0 * bb == 0); assert(val(vv0, n2) == b); assert(val(D0, DN) == T); assert(bb == dd * b); assert(TT == dd * T); assert(bb >= 1) by (nonlinear_arith) requires bb == dd * b, dd >= 1, b >= 1; lemma_loS(D0, 0, 0); assert(0 * p(DN - (n2 - 1)) == 0); lemma_val_bounds(vv, n2); }
@at inv 3
    invariant 0 <= it__3 <= R, hi__3 == R, DN >= R + n2, 2 <= n2 <= 45000, var2_ndigits == n2, DN <= 200000, dividend@.len() == DN + 1, digs(dividend@), divisor@ == vv, vv.len() == n2 + 1, digs(vv),
        vv[0] == 0, divisor1 == vv[1], divisor2 == vv[2], divisor1 >= 5000, bb == val(vv, n2), bb >= 1,
        res_digits@.len() == R, forall|i: int| 0 <= i < it__3 ==> 0 <= #[trigger] res_digits@[i] < 10000,
        0 <= val(dividend@, it__3 - 1 + n2) < bb,
        TT == val(dividend@, DN) + (val(res_digits@, it__3 - 1) * bb) * p(DN - (it__3 - 1 + n2)),
    decreases hi__3 - it__3
@at top 3
    let ghost D = dividend@; let ghost e0 = res_digits@; let ghost u = val(D, it__3 + n2); let ghost q = u / bb;
    proof { lemma_window(D, vv, it__3 as int, n2, bb); }
@at body 3
    let ghost u01 = D[j as int] * 10000 + D[j + 1];
    proof { assert(0 <= D[j as int] < 10000); assert(0 <= D[j + 1] < 10000); assert(0 <= D[j + 2] < 10000); }
@at set *res_digit#2
    proof { let P1 = p(n2 - 1); let l1 = lo(D, j + n2, n2 - 1); let v1 = vv[1] as int; assert(u01 == 0); assert(0 * P1 == 0); assert(v1 * P1 >= P1) by (nonlinear_arith) requires v1 >= 1, P1 >= 1; lemma_div_upd(D, D, j as int, n2, DN, u, u); lemma_res_step(e0, res_digits@, j as int, 0, bb, DN, n2); assert(0 * bb == 0); assert(0 * p(DN - (j + n2)) == 0); }
@at let qhat
    proof { lemma_qhat_init(D, vv, j as int, n2, bb, qhat as int); }
@at inv 4
    invariant 0 <= q <= qhat <= 9999, q == u / bb, u == val(D, j + n2), dividend@ == D, D.len() == DN + 1, DN >= R + n2, 0 <= j < R, 2 <= n2, divisor1 == vv[1], divisor2 == vv[2], digs(vv), digs(D), vv.len() == n2 + 1,
        bb == val(vv, n2), bb >= 1, vv[0] == 0, next2digits == D[j as int] * 10000 + D[j + 1], 0 <= next2digits - qhat * divisor1 <= 19998, 0 <= qhat * divisor1 <= 9999 * 9999, 0 <= divisor2 * qhat <= 9999 * 9999, 0 <= divisor1 <= 9999, 0 <= divisor2 <= 9999, DN <= 200000, 0 <= dividend@[j + 2] <= 9999, 0 <= val(D, j - 1 + n2) < bb,
    decreases qhat
@at top 4
    proof { assert(0 <= qhat * divisor1 <= 9999 * 9999) by (nonlinear_arith) requires 0 <= qhat <= 9999, 0 <= divisor1 <= 9999; assert(0 <= divisor2 * qhat <= 9999 * 9999) by (nonlinear_arith) requires 0 <= qhat <= 9999, 0 <= divisor2 <= 9999; }
@at body 4
    proof { lemma_qhat_dec(D, vv, j as int, n2, bb, qhat as int); let q1 = qhat - 1; assert((qhat - 1) * divisor1 == qhat * divisor1 - divisor1) by (nonlinear_arith);
        assert(0 <= q1 * divisor1 <= 9999 * 9999) by (nonlinear_arith) requires 0 <= q1 <= 9999, 0 <= divisor1 <= 9999; assert(0 <= divisor2 * q1 <= 9999 * 9999) by (nonlinear_arith) requires 0 <= q1 <= 9999, 0 <= divisor2 <= 9999; }
@at before 4
    proof { assert(0 <= qhat * divisor1 <= 9999 * 9999) by (nonlinear_arith) requires 0 <= qhat <= 9999, 0 <= divisor1 <= 9999; assert(0 <= divisor2 * qhat <= 9999 * 9999) by (nonlinear_arith) requires 0 <= qhat <= 9999, 0 <= divisor2 <= 9999; }
@at after 4
    let ghost qh = qhat as int;
    proof { lemma_qhat_exit(D, vv, j as int, n2, bb, qh); }
@at before 5
    proof { lemma_lo0(D, j + n2, 0); lemma_lo0(vv, n2, 0); assert(0 * p(0) == 0); assert(qh * 0 == 0); }
@at inv 5
    invariant lo__5 == 0, 0 <= it__5 <= n2 + 1, 2 <= n2 <= 45000, divisor@ == vv, vv.len() == n2 + 1, digs(vv), vv[0] == 0, dividend@.len() == DN + 1, D.len() == DN + 1, digs(dividend@), digs(D), 0 <= j < R, DN >= R + n2, DN <= 200000,
        0 < qhat <= 9999, qh == qhat, 0 <= carry as int <= 9999, borrow as int == 0 || borrow as int == -1, it__5 == 0 ==> carry as int == 0,
        forall|i: int| 0 <= i < j + it__5 || j + n2 < i <= DN ==> dividend@[i] == D[i],
        lo(dividend@, j + n2, n2 + 1 - it__5) + (borrow as int - carry as int) * p(n2 + 1 - it__5) == lo(D, j + n2, n2 + 1 - it__5) - qh * lo(vv, n2, n2 + 1 - it__5),
    decreases it__5
@at top 5
    let ghost e1 = dividend@; let ghost k1 = n2 + 1 - it__5; let ghost c0 = carry as int; let ghost b0 = borrow as int;
@at body 5
    let ghost y = vv[i as int] as int;
    proof { assert(0 <= y * qhat <= 9999 * 9999) by (nonlinear_arith) requires 0 <= y <= 9999, 0 <= qhat <= 9999; assert(dividend@[j + i] == D[j + i]); assert(i == 0 ==> y * qhat == 0) by (nonlinear_arith) requires i == 0 ==> y == 0; }
@at bot 5
    proof { let x = dividend@[j + i]; assert(dividend@ =~= e1.update(j + i, x)); lemma_lo_upd_out(e1, j + i, x, j + n2, k1); lemma_sub_step(dividend@, D, vv, j + n2, n2, k1, qh, c0, b0, carry as int, borrow as int, lo(e1, j + n2, k1)); }
@at after 5
    let ghost D1 = dividend@;
    proof { assert((borrow as int - 0) * p(n2 + 1) == borrow as int * p(n2 + 1)); lemma_lo_bounds(D1, j + n2, n2 + 1); lemma_borrow(u, bb, qh, lo(D1, j + n2, n2 + 1), borrow as int, p(n2 + 1)); }
@at before 6
    proof { lemma_lo0(D1, j + n2, 0); lemma_lo0(vv, n2, 0); assert(0 * p(0) == 0); }
@at inv 6
    invariant lo__6 == 0, 0 <= it__6 <= n2 + 1, 2 <= n2 <= 45000, divisor@ == vv, vv.len() == n2 + 1, digs(vv), dividend@.len() == DN + 1, D1.len() == DN + 1, digs(dividend@), digs(D1), 0 <= j < R, DN >= R + n2, DN <= 200000,
        carry == 0 || carry == 1,
        forall|i: int| 0 <= i < j + it__6 || j + n2 < i <= DN ==> dividend@[i] == D1[i],
        lo(dividend@, j + n2, n2 + 1 - it__6) + carry * p(n2 + 1 - it__6) == lo(D1, j + n2, n2 + 1 - it__6) + lo(vv, n2, n2 + 1 - it__6),
    decreases it__6
@at top 6
    let ghost e1 = dividend@; let ghost k1 = n2 + 1 - it__6; let ghost c0 = carry as int;
@at bot 6
    proof { let x = dividend@[j + i]; assert(dividend@ =~= e1.update(j + i, x)); assert(e1[j + i] == D1[j + i]); lemma_lo_upd_out(e1, j + i, x, j + n2, k1); lemma_add_step(dividend@, D1, vv, j + n2, n2, k1, c0, carry as int, lo(e1, j + n2, k1)); }
@at after 6
    proof { lemma_lo_bounds(dividend@, j + n2, n2 + 1); lemma_addback(u, bb, qh, lo(D1, j + n2, n2 + 1), lo(dividend@, j + n2, n2 + 1), carry as int, p(n2 + 1)); }
@at fi 8
    proof { assert(qhat == q); assert(lo(dividend@, j + n2, n2 + 1) == u - q * bb); }
@at set *res_digit#3
    proof {
        assert(qhat == q); assert(0 * bb == 0);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, bb); assert(bb * q == q * bb) by (nonlinear_arith);
        lemma_div_upd(D, dividend@, j as int, n2, DN, u, u - q * bb); lemma_res_step(e0, res_digits@, j as int, q, bb, DN, n2);
    }
@at after 3
    proof { fin = res_digits@; lemma_div_finish(dividend@, TT, val(res_digits@, R - 1), bb, DN, R - 1 + n2, dd, b, T); }
@at set result.weight
    let ghost rd = result.digits.ds();
    proof { assert(rd.subrange(0, R) =~= fin); assert(digs(fin)); lemma_div_value(s1, w1, s2, w2, R, DN, val(rd.subrange(0, R), R - 1)); }
@at set result.sign
    let ghost rm = result.mag(); let ghost e = w1 - w2 - (R - 1);
    proof { let s = rd.subrange(0, R); assert(result.sd() =~= s); lemma_val_shift(s, R - 1, e + KK); lemma_val_bounds(s1, w1 + KK); lemma_quot(self.mag(), other.mag(), rscale as int, e, rm, round); lemma_U(rscale as int); }

@fn var NumericVar::checked_div
@spec
    requires self.can(), other.can()
    ensures ret is None <==> other.mag() == 0,
        ret matches Some(r) ==> r.st() && r.norm() && r.dscale == div_scale(self.sd(), self.weight as int, self.dscale as int, other.sd(), other.weight as int, other.dscale as int)
            && r.mag() == quot_round(self.mag(), other.mag(), r.dscale as int)
            && r.iv() == (if self.sign == other.sign { r.mag() } else { -r.mag() })
@at begin
    proof { lemma_var_can(self); lemma_var_can(other); }

@fn var NumericVar::checked_div_trunc
@spec
    requires self.can(), other.can()
    ensures ret is None <==> other.mag() == 0,
        ret matches Some(r) ==> r.st() && r.norm() && r.dscale == 0 && r.mag() == quot_trunc(self.mag(), other.mag(), 0) && r.iv() == (if self.sign == other.sign { r.mag() } else { -r.mag() })
@at begin
    proof { lemma_var_can(self); lemma_var_can(other); }

@fn var NumericVar::mod_common
@spec
    requires self.can(), other.can()
    ensures ret is None <==> other.mag() == 0,
        ret matches Some(r) ==> r.st() && r.dscale == imax(self.dscale as int, other.dscale as int) && r.iv() == remv(self.iv(), other.iv())
@at begin
    proof { lemma_var_can(self); lemma_var_can(other); }
@at let result
    let ghost q = result; let ghost x = self.mag(); let ghost y = other.mag();
    proof { lemma_rem(x, y); lemma_quot_scale(x, y, 0); lemma_remv(self.iv(), other.iv()); lemma_var_can(self); lemma_var_can(other); lemma_div_weight(self, other, &q); }
@at set result
    let ghost m = result;
    proof {
        let k = x / y; let u = U(other.dscale as int); lemma_U(other.dscale as int); lemma_dvd_prod(u, y, k); assert(k * y == y * k) by (nonlinear_arith);
        assert(k * y >= 0) by (nonlinear_arith) requires k >= 0, y > 0; lemma_round_exact(k * y, other.dscale as int); assert(m.mag() == k * y);
        if q.ndigits == 0 { lemma_val_empty(q.sd(), q.weight + KK); lemma_ppos(KK); assert(k * p(KK) == 0); assert(k == 0) by (nonlinear_arith) requires k * p(KK) == 0, p(KK) >= 1; assert(0 * y == 0); }
        else { lemma_ppos(q.weight + KK); }
    }

@fn num Numeric::checked_div
@spec
    requires self.can(), other.can()
    ensures self.nv().nan || other.nv().nan ==> some_nan(ret),
        !self.nv().nan && !other.nv().nan ==> if other.nv().mag() == 0 { ret is None } else { ({
            let (a, b) = (self.nv(), other.nv()); let ds = div_scale(a.digits, a.weight, a.dscale, b.digits, b.weight, b.dscale);
            &&& exact(ret, rquot(a.iv(), b.iv(), ds), ds)
            &&& ds <= 1000 && (ds == 1000 || ds >= a.dscale && ds >= b.dscale)
            &&& a.mag() > 0 && ds < 1000 ==> quot_round(a.mag(), b.mag(), ds) >= t(16) * U(ds)
        }) }
@at begin
    proof {
        let (a, b) = (self.nv(), other.nv()); lemma_can_facts(a); lemma_can_facts(b); let ds = div_scale(a.digits, a.weight, a.dscale, b.digits, b.weight, b.dscale);
        if !a.nan && !b.nan && b.mag() > 0 { lemma_quot_scale(a.mag(), b.mag(), ds); lemma_quot_pos(a.mag(), b.mag(), ds); if a.mag() > 0 { lemma_div_sig(a.digits, a.weight, a.dscale, b.digits, b.weight, b.dscale); } else { lemma_quot_zero(b.mag(), ds); } }
    }

@fn num Numeric::checked_div_trunc
@spec
    requires self.can(), other.can()
    ensures self.nv().nan || other.nv().nan ==> some_nan(ret),
        !self.nv().nan && !other.nv().nan ==> if other.nv().mag() == 0 { ret is None } else { exact(ret, tquot(self.nv().iv(), other.nv().iv(), 0), 0) }
@at begin
    proof {
        let (a, b) = (self.nv(), other.nv()); lemma_can_facts(a); lemma_can_facts(b);
        if !a.nan && !b.nan && b.mag() > 0 { lemma_quot_scale(a.mag(), b.mag(), 0); lemma_quot_pos(a.mag(), b.mag(), 0); lemma_quot_zero(b.mag(), 0); }
    }

@fn num Numeric::checked_rem
@spec
    requires self.can(), other.can()
    ensures self.nv().nan || other.nv().nan ==> some_nan(ret),
        !self.nv().nan && !other.nv().nan ==> if other.nv().mag() == 0 { ret is None } else { ({
            let (a, b) = (self.nv(), other.nv()); let r = remv(a.iv(), b.iv());
            &&& ret matches Some(z) && z.nv().is(r, imax(a.dscale, b.dscale))
            &&& iabs(r) < iabs(b.iv()) && (r == 0 || (r < 0) == (a.iv() < 0))
        }) }
@at begin
    proof {
        let (a, b) = (self.nv(), other.nv()); lemma_can_facts(a); lemma_can_facts(b);
        if !a.nan && !b.nan && b.mag() > 0 { lemma_rem_fits(a, b); lemma_remv(a.iv(), b.iv()); }
    }
