@fn var NumericVar::add_abs
@spec
    requires self.st(), other.st(), sz(self, 45000), sz(other, 45000)
    ensures ret.st(), ret.norm(), ret.mag() == self.mag() + other.mag(), ret.dscale == imax(self.dscale as int, other.dscale as int), ret.sign == 0,
        ret.ndigits > 0 ==> ret.weight <= imax(self.weight as int, other.weight as int) + 1
            && ret.ndigits - 1 - ret.weight <= imax(self.ndigits - 1 - self.weight, other.ndigits - 1 - other.weight)
            && ret.ndigits <= 1 + imax(self.weight as int, other.weight as int) + 1 + imax(self.ndigits - 1 - self.weight, other.ndigits - 1 - other.weight)
@at begin
    let ghost sa = self.sd(); let ghost sb = other.sd(); let ghost wa = self.weight as int; let ghost wb = other.weight as int;
@at let res_digits
    let ghost rw = res_weight as int; let ghost n = res_ndigits as int; let ghost rs = res_rscale as int;
    let ghost z = KK - rs;       // positions below the result's last digit
    proof {
        assert(n == rs + rw + 1);
        lemma_lo_right(sa, wa + KK, z); lemma_lo_right(sb, wb + KK, z); lemma_lo_right(res_digits@, rw + KK, z);
        assert(0 * p(z) == 0);
    }
@at inv 0
    invariant lo__0 == 0, it__0 <= n, n == res_digits@.len(), n == rs + rw + 1, i1 == it__0 + wa - rw, i2 == it__0 + wb - rw,
        0 < n < 100000, z == KK - rs, z >= 0, -99000 <= wa < rw <= 99000, -99000 <= wb < rw, -99000 <= rs <= 99000,
        var1_digits@ == sa, var2_digits@ == sb, var1_ndigits == sa.len(), var2_ndigits == sb.len(), digs(sa), digs(sb),
        0 <= carry <= 1, forall|j: int| it__0 <= j < n ==> 0 <= #[trigger] res_digits@[j] < 10000,
        lo(res_digits@, rw + KK, z + n - it__0) + carry * p(z + n - it__0) == lo(sa, wa + KK, z + n - it__0) + lo(sb, wb + KK, z + n - it__0),
    decreases it__0
@at top 0
    let ghost c0 = carry as int; let ghost m = n - it__0; let ghost r0 = res_digits@;
@at bot 0
    proof {
        let k = z + m; let i = it__0 as int;
        let r1 = res_digits@;
        assert(r1 =~= r0.update(i, r1[i]));
        lemma_lo_upd_out(r0, i, r1[i], rw + KK, k);
        lemma_loS(r1, rw + KK, k); lemma_loS(sa, wa + KK, k); lemma_loS(sb, wb + KK, k); lemma_pS(k + 1);
        let x = at(sa, wa + KK - k); let y = at(sb, wb + KK - k); let q = p(k); let d = r1[i] as int; let c1 = carry as int;
        assert(d + 10000 * c1 == c0 + x + y);
        assert(d * q + c1 * (10000 * q) == c0 * q + x * q + y * q) by (nonlinear_arith) requires d + 10000 * c1 == c0 + x + y;
    }
@at after 0
    proof {
        let k = rw + KK + 1; 
        lemma_lo_top(sa, wa + KK, k); lemma_lo_top(sb, wb + KK, k);
        lemma_val_bounds(sa, wa + KK); lemma_val_bounds(sb, wb + KK); lemma_val_bounds(res_digits@, rw + KK);
        lemma_pmono(wa + KK + 1, rw + KK); lemma_pmono(wb + KK + 1, rw + KK); lemma_pS(k);
        let c = carry as int; let q = p(k);
        assert(c * q < q) ;
        if c == 1 { assert(1 * q == q); }
        assert(0 * q == 0);
    }
    let ghost fin = res_digits@;
@at call strip
    proof { assert(res.sd() =~= fin); }

@fn var NumericVar::sub_abs
@spec
    requires self.st(), other.st(), sz(self, 45000), sz(other, 45000), self.mag() >= other.mag()
    ensures ret.st(), ret.norm(), ret.mag() == self.mag() - other.mag(), ret.dscale == imax(self.dscale as int, other.dscale as int), ret.sign == 0,
        ret.ndigits > 0 ==> ret.weight <= self.weight
            && ret.ndigits - 1 - ret.weight <= imax(self.ndigits - 1 - self.weight, other.ndigits - 1 - other.weight)
            && ret.ndigits <= self.weight + 1 + imax(self.ndigits - 1 - self.weight, other.ndigits - 1 - other.weight)
@at begin
    let ghost sa = self.sd(); let ghost sb = other.sd(); let ghost wa = self.weight as int; let ghost wb = other.weight as int;
@at let res_digits
    let ghost rw = res_weight as int; let ghost n = res_ndigits as int; let ghost rs = res_rscale as int;
    // with rs + rw + 1 <= 0 both operands have no digit at or above the unit of the single result digit: both are zero
    let ghost z = KK - (n - rw - 1);
    proof {
        if sa.len() == 0 {
            lemma_val_empty(sa, wa + KK);
            lemma_val_bounds(sb, wb + KK);
            assert forall|j: int| at(sb, j) == 0 by { if 0 <= j < sb.len() { lemma_val_zero(sb, wb + KK, j); } }
        }
        lemma_lo_right(sa, wa + KK, z); lemma_lo_right(res_digits@, rw + KK, z);
        if n == rs + rw + 1 { lemma_lo_right(sb, wb + KK, z); } else { lemma_lo_zero(sb, wb + KK, z); }
        assert(0 * p(z) == 0);
    }
@at inv 0
    invariant lo__0 == 0, it__0 <= n, n == res_digits@.len(), i1 == it__0 + wa - rw + (rs + rw + 1 - n), i2 == it__0 + wb - rw + (rs + rw + 1 - n),
        n == rs + rw + 1 || (n == 1 && rs + rw + 1 <= 0 && sa.len() == 0 && (forall|j: int| at(sb, j) == 0)),
        0 < n < 100000, z == KK + rw + 1 - n, z >= 0, wa == rw, -99000 <= rw <= 99000, -99000 <= wb <= 99000, -99000 <= rs <= 99000,
        var1_digits@ == sa, var2_digits@ == sb, var1_ndigits == sa.len(), var2_ndigits == sb.len(), digs(sa), digs(sb), sb.len() - wb - 1 <= rs,
        -1 <= borrow <= 0, forall|j: int| it__0 <= j < n ==> 0 <= #[trigger] res_digits@[j] < 10000,
        lo(res_digits@, rw + KK, z + n - it__0) + borrow * p(z + n - it__0) == lo(sa, wa + KK, z + n - it__0) - lo(sb, wb + KK, z + n - it__0),
    decreases it__0
@at top 0
    let ghost c0 = borrow as int; let ghost m = n - it__0; let ghost r0 = res_digits@;
@at bot 0
    proof {
        let k = z + m; let i = it__0 as int;
        let r1 = res_digits@;
        assert(r1 =~= r0.update(i, r1[i]));
        lemma_lo_upd_out(r0, i, r1[i], rw + KK, k);
        lemma_loS(r1, rw + KK, k); lemma_loS(sa, wa + KK, k); lemma_loS(sb, wb + KK, k); lemma_pS(k + 1);
        let x = at(sa, wa + KK - k); let y = at(sb, wb + KK - k); let q = p(k); let d = r1[i] as int; let c1 = borrow as int;
        assert(at(sb, i2 as int) == y && at(sa, i1 as int) == x);
        assert(d + 10000 * c1 == c0 + x - y);
        assert(d * q + c1 * (10000 * q) == c0 * q + x * q - y * q) by (nonlinear_arith) requires d + 10000 * c1 == c0 + x - y;
    }
@at after 0
    proof {
        let k = rw + KK + 1;
        lemma_val_bounds(sa, wa + KK); lemma_val_bounds(sb, wb + KK); lemma_val_bounds(res_digits@, rw + KK);
        lemma_sub_top(sb, wb, rw, self.mag()); if sa.len() == 0 { lemma_val_empty(sa, wa + KK); }
        let c = borrow as int; let q = p(k);
        if c == -1 { assert(-1 * q == -q); }
        assert(0 * q == 0);
    }
    let ghost fin = res_digits@;
@at call strip
    proof { assert(res.sd() =~= fin); }
