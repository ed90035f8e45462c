// ---------------------------------------------------------------- lemmas about long division
pub proof fn lemma_quot_zero(y: int, ds: int) requires ds < 4 * KK
    ensures y > 0 ==> quot_round(0, y, ds) == 0 && quot_trunc(0, y, ds) == 0
{
    let u = U(ds); lemma_U(ds); assert(0 * p(KK) == 0);
    if y > 0 {
        assert(y * u > 0) by (nonlinear_arith) requires y > 0, u > 0; assert(0 <= y * (u / 2) < y * u) by (nonlinear_arith) requires y > 0, 0 <= u / 2 < u;
        lemma_div_unique(y * (u / 2), y * u, 0, y * (u / 2)); lemma_div_unique(0, y * u, 0, 0); assert(0 * u == 0);
    }
}
// one spare cell, the digits, zeros
pub proof fn lemma_div_setup(D: Seq<i16>, s: Seq<i16>, n: int, dn: int) requires digs(s), s.len() == n, 0 <= n <= dn, D.len() == dn + 1, forall|i: int| 0 <= i <= dn ==> #[trigger] D[i] == (if 1 <= i <= n { s[i - 1] } else { 0 })
    ensures digs(D), forall|k: int| 0 <= k <= dn ==> #[trigger] val(D, k) == val(s, k - 1)
{
    assert forall|k: int| 0 <= k <= dn implies #[trigger] val(D, k) == val(s, k - 1) by {
        lemma_loS(D, k, k); assert(D[0] == 0); assert(0 * p(k) == 0);
        assert forall|j: int| 0 <= j < k implies at(D, k - j) == #[trigger] at(s, k - 1 - j) by { assert(D[k - j] == (if 1 <= k - j <= n { s[k - j - 1] } else { 0 })); }
        lemma_lo_congr(D, k, s, k - 1, k);
    }
}
pub proof fn lemma_norm_d(v: int, d: int) requires 1 <= v < 5000, d == 10000int / (v + 1) ensures 2 <= d <= 5000, d * (v + 1) <= 10000, d * v >= 5000
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(10000, v + 1); let r = 10000int % (v + 1);
    assert((v + 1) * d == d * v + d) by (nonlinear_arith);
    assert(d * (v + 1) == d * v + d) by (nonlinear_arith);
    if d <= 1 { assert((v + 1) * d <= v + 1) by (nonlinear_arith) requires d <= 1, v + 1 > 0; assert(false); }
    assert(d <= 5000) by (nonlinear_arith) requires (v + 1) * d + r == 10000, r >= 0, v + 1 >= 2;
    // d*v = 10000 - r - d, r <= v
    if v == 1 { assert(10000int / 2 == 5000); } else {
        assert((d - 2) * (v - 1) >= 0) by (nonlinear_arith) requires d >= 2, v >= 1;
        assert((d - 2) * (v - 1) == d * v - d - 2 * v + 2) by (nonlinear_arith);
        // d*v >= d + 2v - 2 ;  d*v = 10000 - r - d
        // if d*v <= 4999 then r + d >= 5001 and d + 2v - 2 <= 4999
        if d * v <= 4999 { assert(r + d >= 5001); assert(d >= 5001 - v); assert(d + 2 * v - 2 <= 4999); assert(false); }
    }
}
pub proof fn lemma_scale_step(A: Seq<i16>, B: Seq<i16>, top: int, k: int, d: int, c0: int, c1: int, l0: int)
    requires k >= 0, lo(A, top, k) == l0, l0 + c0 * p(k) == d * lo(B, top, k), at(A, top - k) + 10000 * c1 == c0 + at(B, top - k) * d
    ensures lo(A, top, k + 1) + c1 * p(k + 1) == d * lo(B, top, k + 1)
{
    lemma_loS(A, top, k); lemma_loS(B, top, k); lemma_pS(k + 1);
    let x = at(A, top - k); let y = at(B, top - k); let q = p(k); let l = lo(B, top, k);
    assert(x * q + c1 * (10000 * q) == c0 * q + (y * d) * q) by (nonlinear_arith) requires x + 10000 * c1 == c0 + y * d;
    assert(d * (l + y * q) == d * l + (y * d) * q) by (nonlinear_arith);
}
// the scaled divisor still has n digits
pub proof fn lemma_norm_v(s: Seq<i16>, n: int, d: int) requires digs(s), s.len() == n, n >= 1, s[0] >= 1, d >= 1, d * (s[0] + 1) <= 10000 ensures d * val(s, n - 1) < p(n), d * val(s, n - 1) >= (d * s[0]) * p(n - 1)
{
    lemma_val_first(s, n - 1); lemma_pS(n); let q = p(n - 1); let v = s[0] as int; let b = val(s, n - 1);
    assert(d * b < d * ((v + 1) * q)) by (nonlinear_arith) requires d >= 1, b < (v + 1) * q;
    assert(d * ((v + 1) * q) == (d * (v + 1)) * q) by (nonlinear_arith);
    assert((d * (v + 1)) * q <= 10000 * q) by (nonlinear_arith) requires d * (v + 1) <= 10000, q >= 1;
    assert(d * b >= d * (v * q)) by (nonlinear_arith) requires d >= 1, b >= v * q; assert(d * (v * q) == (d * v) * q) by (nonlinear_arith);
}
pub proof fn lemma_norm_top(vv: Seq<i16>, s: Seq<i16>, n: int, d: int) requires digs(s), s.len() == n, n >= 2, digs(vv), vv.len() == n + 1, vv[0] == 0, val(vv, n) == d * val(s, n - 1), d >= 1, 1 <= s[0], d * (s[0] + 1) <= 10000, d * s[0] >= 5000
    ensures vv[1] >= 5000
{
    lemma_norm_v(s, n, d); lemma_loS(vv, n, n); lemma_loS(vv, n, n - 1); lemma_lo_bounds(vv, n, n - 1); assert(at(vv, 0) == 0); assert(at(vv, 1) == vv[1]); assert(0 * p(n) == 0);
    let q = p(n - 1); let x = vv[1] as int; let l = lo(vv, n, n - 1); let f = d * s[0]; lemma_ppos(n - 1);
    if x < 5000 { assert(x * q + q <= f * q) by (nonlinear_arith) requires x + 1 <= f, q >= 1; }
}
// the scaled dividend has no carry out and its value is d times the old one
pub proof fn lemma_norm_u(D0: Seq<i16>, D: Seq<i16>, n1: int, dn: int, d: int, carry: int)
    requires digs(D0), digs(D), D0.len() == dn + 1, D.len() == dn + 1, 1 <= n1 <= dn, D0[0] == 0, forall|i: int| n1 < i <= dn ==> D[i] == D0[i], forall|i: int| n1 < i <= dn ==> #[trigger] D0[i] == 0,
        lo(D, n1, n1 + 1) + carry * p(n1 + 1) == d * lo(D0, n1, n1 + 1), 0 <= carry, 2 <= d <= 5000
    ensures carry == 0, val(D, dn) == d * val(D0, dn)
{
    lemma_loS(D0, n1, n1); lemma_lo_bounds(D0, n1, n1); lemma_pS(n1 + 1); assert(at(D0, 0) == 0); assert(0 * p(n1) == 0);
    let l = lo(D0, n1, n1 + 1); let q = p(n1);
    assert(d * l <= 5000 * q) by (nonlinear_arith) requires 0 <= l < q, d <= 5000, d >= 0;
    lemma_lo_bounds(D, n1, n1 + 1); lemma_no_carry(lo(D, n1, n1 + 1), carry, n1 + 1, d * l); assert(0 * p(n1 + 1) == 0);
    lemma_val_cut(D, dn, n1 + 1); lemma_val_cut(D0, dn, n1 + 1);
    assert forall|j: int| 0 <= j < dn - n1 implies #[trigger] at(D, dn - j) == 0 by { assert(D0[dn - j] == 0); }
    assert forall|j: int| 0 <= j < dn - n1 implies #[trigger] at(D0, dn - j) == 0 by { assert(D0[dn - j] == 0); }
    lemma_lo_zero(D, dn, dn - n1); lemma_lo_zero(D0, dn, dn - n1);
    let z = p(dn - n1); assert((d * l) * z == d * (l * z)) by (nonlinear_arith);
}
// the first n2 digits of the dividend are less than the divisor
pub proof fn lemma_norm_start(D0: Seq<i16>, D: Seq<i16>, s2: Seq<i16>, n2: int, dn: int, d: int)
    requires digs(D0), digs(D), D0.len() == dn + 1, D.len() == dn + 1, D0[0] == 0, digs(s2), s2.len() == n2, 2 <= n2 <= dn, s2[0] >= 1, d >= 1, val(D, dn) == d * val(D0, dn)
    ensures 0 <= val(D, n2 - 1) < d * val(s2, n2 - 1)
{
    let b = val(s2, n2 - 1); lemma_val_first(s2, n2 - 1); lemma_loS(D0, n2 - 1, n2 - 1); lemma_lo_bounds(D0, n2 - 1, n2 - 1); assert(at(D0, 0) == 0); assert(0 * p(n2 - 1) == 0);
    let x = val(D0, n2 - 1); assert(x + 1 <= b);
    let e = dn + 1 - n2; let z = p(e); lemma_val_cut(D0, dn, n2); lemma_val_cut(D, dn, n2); lemma_lo_bounds(D0, dn, e); lemma_lo_bounds(D, dn, e); lemma_ppos(e); lemma_val_bounds(D, n2 - 1);
    let y = val(D, n2 - 1); let l0 = lo(D0, dn, e); let l = lo(D, dn, e);
    // y*z <= d*(x*z + l0) < d*(x+1)*z <= d*b*z
    assert(d * (x * z + l0) < d * (b * z)) by { assert(x * z + l0 < b * z) by (nonlinear_arith) requires x + 1 <= b, 0 <= l0 < z; assert(d * (x * z + l0) < d * (b * z)) by (nonlinear_arith) requires d >= 1, x * z + l0 < b * z; }
    assert(d * (b * z) == (d * b) * z) by (nonlinear_arith);
    if y >= d * b { assert(y * z >= (d * b) * z) by (nonlinear_arith) requires y >= d * b, z >= 1; }
}
// the window of n2+1 digits starting at j holds the whole running remainder
pub proof fn lemma_window(D: Seq<i16>, vv: Seq<i16>, j: int, n2: int, bb: int)
    requires digs(D), digs(vv), vv.len() == n2 + 1, vv[0] == 0, n2 >= 2, j >= 0, D.len() > j + n2, bb == val(vv, n2), 0 <= val(D, j - 1 + n2) < bb
    ensures val(D, j - 1) == 0, lo(D, j + n2, n2 + 1) == val(D, j + n2), 0 <= val(D, j + n2) < 10000 * bb, 0 <= val(D, j + n2) / bb <= 9999,
        val(D, j + n2) == (D[j] * 10000 + D[j + 1]) * p(n2 - 1) + lo(D, j + n2, n2 - 1), 0 <= lo(D, j + n2, n2 - 1) < p(n2 - 1),
        val(D, j + n2) == ((D[j] * 10000 + D[j + 1]) * 10000 + D[j + 2]) * p(n2 - 2) + lo(D, j + n2, n2 - 2), 0 <= lo(D, j + n2, n2 - 2) < p(n2 - 2),
        bb == vv[1] * p(n2 - 1) + lo(vv, n2, n2 - 1), 0 <= lo(vv, n2, n2 - 1) < p(n2 - 1),
        bb == (vv[1] * 10000 + vv[2]) * p(n2 - 2) + lo(vv, n2, n2 - 2), 0 <= lo(vv, n2, n2 - 2) < p(n2 - 2), bb < p(n2), p(n2 - 1) == 10000 * p(n2 - 2), p(n2 - 2) >= 1
{
    let u = val(D, j + n2);
    lemma_val_step(D, j + n2); assert(0 <= D[j + n2] < 10000); assert(at(D, j + n2) == D[j + n2]);
    lemma_val_bounds(D, j + n2);
    assert(u / bb <= 9999) by (nonlinear_arith) requires 0 <= u < 10000 * bb, bb > 0; assert(u / bb >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(u, bb); }
    lemma_lo_split(D, j + n2, n2 + 1, j); lemma_lo_bounds(D, j + n2, n2 + 1); lemma_pS(n2 + 1); lemma_pS(n2); lemma_pS(n2 - 1); lemma_ppos(n2 - 2);
    lemma_loS(vv, n2, n2); lemma_loS(vv, n2, n2 - 1); lemma_loS(vv, n2, n2 - 2); lemma_lo_bounds(vv, n2, n2 - 1); lemma_lo_bounds(vv, n2, n2 - 2); lemma_lo_bounds(vv, n2, n2); assert(at(vv, 0) == 0); assert(0 * p(n2) == 0);
    assert(at(vv, 1) == vv[1]); assert(at(vv, 2) == vv[2]);
    let h = val(D, j - 1); let P = p(n2 + 1); if j > 0 { lemma_val_bounds(D, j - 1); } else { lemma_lo0(D, -1, 0); }
    assert(lo(D, j + n2 - (n2 + 1), j) == h);
    if h >= 1 { assert(h * P >= P) by (nonlinear_arith) requires h >= 1, P >= 1; assert(10000 * bb < P); assert(false); }
    assert(0 * P == 0);
    lemma_loS(D, j + n2, n2); lemma_loS(D, j + n2, n2 - 1); lemma_loS(D, j + n2, n2 - 2); lemma_lo_bounds(D, j + n2, n2 - 1); lemma_lo_bounds(D, j + n2, n2 - 2);
    assert(at(D, j) == D[j]); assert(at(D, j + 1) == D[j + 1]); assert(at(D, j + 2) == D[j + 2]);
    let q = p(n2 - 2); let a = D[j] as int; let b = D[j + 1] as int; let c = D[j + 2] as int;
    assert(a * (10000 * (10000 * q)) + b * (10000 * q) == (a * 10000 + b) * (10000 * q)) by (nonlinear_arith);
    assert((a * 10000 + b) * (10000 * q) + c * q == ((a * 10000 + b) * 10000 + c) * q) by (nonlinear_arith);
    let v = vv[1] as int; let w = vv[2] as int;
    assert(v * (10000 * q) + w * q == (v * 10000 + w) * q) by (nonlinear_arith);
}
pub proof fn lemma_le_div(u: int, b: int, k: int) requires b > 0, k * b <= u ensures k <= u / b
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, b); let q = u / b; let r = u % b; assert(k <= q) by (nonlinear_arith) requires k * b <= u, u == b * q + r, r < b, b > 0; }
pub open spec fn win_ok(D: Seq<i16>, vv: Seq<i16>, j: int, n2: int, bb: int) -> bool
{ digs(D) && digs(vv) && vv.len() == n2 + 1 && vv[0] == 0 && n2 >= 2 && j >= 0 && D.len() > j + n2 && bb == val(vv, n2) && 0 <= val(D, j - 1 + n2) < bb }
// the first estimate is not too small
pub proof fn lemma_qhat_init(D: Seq<i16>, vv: Seq<i16>, j: int, n2: int, bb: int, qh: int)
    requires win_ok(D, vv, j, n2, bb), vv[1] >= 5000, D[j] == vv[1] ==> qh == 9999, D[j] != vv[1] ==> qh == (D[j] * 10000 + D[j + 1]) / vv[1] as int
    ensures val(D, j + n2) / bb <= qh <= 9999, 0 <= (D[j] * 10000 + D[j + 1]) - qh * vv[1] <= 19998
{
    lemma_window(D, vv, j, n2, bb);
    let u = val(D, j + n2); let q = u / bb; let v1 = vv[1] as int; let u0 = D[j] as int; let u01 = u0 * 10000 + D[j + 1]; let P = p(n2 - 1); let lu = lo(D, j + n2, n2 - 1); let lv = lo(vv, n2, n2 - 1);
    assert(0 <= D[j] < 10000); assert(0 <= D[j + 1] < 10000);
    // u0 <= v1
    assert(u0 <= v1) by {
        if u0 >= v1 + 1 {
            assert(u01 * P >= (10000 * (v1 + 1)) * P) by (nonlinear_arith) requires u01 >= 10000 * (v1 + 1), P >= 1;
            assert((10000 * (v1 + 1)) * P == 10000 * (v1 * P) + 10000 * P) by (nonlinear_arith);
            assert(false);
        }
    }
    if u0 == v1 {
        assert(u01 - 9999 * v1 == v1 + D[j + 1]);
    } else {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u01, v1);
        let r = u01 % v1; assert(v1 * qh == qh * v1) by (nonlinear_arith);
        assert(qh <= 9999) by (nonlinear_arith) requires u01 == v1 * qh + r, r >= 0, u01 <= (v1 - 1) * 10000 + 9999, v1 >= 1;
        // q * v1 * P <= q * bb <= u < (u01 + 1) * P
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, bb);
        assert(bb * q == (v1 * q) * P + lv * q) by (nonlinear_arith) requires bb == v1 * P + lv;
        assert(lv * q >= 0) by (nonlinear_arith) requires lv >= 0, q >= 0;
        assert(v1 * q <= u01) by { if v1 * q >= u01 + 1 { let z = v1 * q; assert(z * P >= u01 * P + P) by (nonlinear_arith) requires z >= u01 + 1, P >= 1; assert(false); } }
        assert(q <= qh) by (nonlinear_arith) requires v1 * q <= u01, u01 == v1 * qh + r, r < v1, v1 >= 1;
    }
}
// when the test on the second divisor digit fails, the estimate is too large
pub proof fn lemma_qhat_dec(D: Seq<i16>, vv: Seq<i16>, j: int, n2: int, bb: int, qh: int)
    requires win_ok(D, vv, j, n2, bb), vv[2] * qh > ((D[j] * 10000 + D[j + 1]) - qh * vv[1]) * 10000 + D[j + 2], val(D, j + n2) / bb <= qh <= 9999, 0 <= (D[j] * 10000 + D[j + 1]) - qh * vv[1]
    ensures val(D, j + n2) / bb <= qh - 1, (D[j] * 10000 + D[j + 1]) - qh * vv[1] <= 9999
{
    lemma_window(D, vv, j, n2, bb);
    let u = val(D, j + n2); let q = u / bb; let v1 = vv[1] as int; let v2 = vv[2] as int; let u01 = D[j] * 10000 + D[j + 1]; let u3 = u01 * 10000 + D[j + 2]; let P = p(n2 - 2); let lu = lo(D, j + n2, n2 - 2); let lv = lo(vv, n2, n2 - 2);
    assert(0 <= D[j + 2] < 10000); assert(0 <= vv[2] < 10000);
    assert(v2 * qh <= 9999 * 9999) by (nonlinear_arith) requires 0 <= v2 <= 9999, qh <= 9999, 0 <= qh;
    let vt = v1 * 10000 + v2;
    assert(qh * vt > u3) by (nonlinear_arith) requires v2 * qh > (u01 - qh * v1) * 10000 + (u3 - u01 * 10000), vt == v1 * 10000 + v2;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, bb);
    assert(bb * q == (vt * q) * P + lv * q) by (nonlinear_arith) requires bb == vt * P + lv;
    assert(lv * q >= 0) by (nonlinear_arith) requires lv >= 0, q >= 0;
    assert(vt * q <= u3) by { if vt * q >= u3 + 1 { let z = vt * q; assert(z * P >= u3 * P + P) by (nonlinear_arith) requires z >= u3 + 1, P >= 1; assert(false); } }
    if q == qh { assert(vt * q == qh * vt) by (nonlinear_arith) requires q == qh; assert(false); }
}
pub proof fn lemma_qhat_exit(D: Seq<i16>, vv: Seq<i16>, j: int, n2: int, bb: int, qh: int)
    requires win_ok(D, vv, j, n2, bb), vv[1] >= 5000, vv[2] * qh <= ((D[j] * 10000 + D[j + 1]) - qh * vv[1]) * 10000 + D[j + 2], val(D, j + n2) / bb <= qh <= 9999
    ensures qh <= val(D, j + n2) / bb + 1, (qh - 1) * bb <= val(D, j + n2)
{
    lemma_window(D, vv, j, n2, bb);
    let u = val(D, j + n2); let v1 = vv[1] as int; let v2 = vv[2] as int; let u01 = D[j] * 10000 + D[j + 1]; let u3 = u01 * 10000 + D[j + 2]; let P = p(n2 - 2); let lu = lo(D, j + n2, n2 - 2); let lv = lo(vv, n2, n2 - 2);
    let vt = v1 * 10000 + v2; assert(0 <= vv[2]); assert(qh >= 0);
    assert(qh * vt <= u3) by (nonlinear_arith) requires v2 * qh <= (u01 - qh * v1) * 10000 + (u3 - u01 * 10000), vt == v1 * 10000 + v2;
    // qh*bb = qh*vt*P + qh*lv <= u3*P + qh*P <= u + qh*P, and qh*P < bb
    assert(qh * bb == (qh * vt) * P + qh * lv) by (nonlinear_arith) requires bb == vt * P + lv;
    assert((qh * vt) * P <= u3 * P) by (nonlinear_arith) requires qh * vt <= u3, P >= 1;
    assert(qh * lv <= qh * P) by (nonlinear_arith) requires qh >= 0, lv <= P;
    assert(qh * P <= vt * P) by (nonlinear_arith) requires qh <= vt, P >= 1;
    assert((qh - 1) * bb == qh * bb - bb) by (nonlinear_arith);
    lemma_le_div(u, bb, qh - 1);
}
pub proof fn lemma_sub_step(A: Seq<i16>, D: Seq<i16>, vv: Seq<i16>, top: int, n2: int, k: int, qh: int, c0: int, b0: int, c1: int, b1: int, l0: int)
    requires k >= 0, lo(A, top, k) == l0, l0 + (b0 - c0) * p(k) == lo(D, top, k) - qh * lo(vv, n2, k),
        at(A, top - k) + 10000 * b1 - 10000 * c1 == at(D, top - k) + b0 - c0 - at(vv, n2 - k) * qh
    ensures lo(A, top, k + 1) + (b1 - c1) * p(k + 1) == lo(D, top, k + 1) - qh * lo(vv, n2, k + 1)
{
    lemma_loS(A, top, k); lemma_loS(D, top, k); lemma_loS(vv, n2, k); lemma_pS(k + 1);
    let x = at(A, top - k); let y = at(D, top - k); let z = at(vv, n2 - k); let q = p(k); let l = lo(vv, n2, k);
    assert(x * q + (b1 - c1) * (10000 * q) == y * q + (b0 - c0) * q - (z * qh) * q) by (nonlinear_arith) requires x + 10000 * b1 - 10000 * c1 == y + b0 - c0 - z * qh;
    assert(qh * (l + z * q) == qh * l + (z * qh) * q) by (nonlinear_arith);
}
pub proof fn lemma_add_step(A: Seq<i16>, D: Seq<i16>, vv: Seq<i16>, top: int, n2: int, k: int, c0: int, c1: int, l0: int)
    requires k >= 0, lo(A, top, k) == l0, l0 + c0 * p(k) == lo(D, top, k) + lo(vv, n2, k), at(A, top - k) + 10000 * c1 == at(D, top - k) + c0 + at(vv, n2 - k)
    ensures lo(A, top, k + 1) + c1 * p(k + 1) == lo(D, top, k + 1) + lo(vv, n2, k + 1)
{
    lemma_loS(A, top, k); lemma_loS(D, top, k); lemma_loS(vv, n2, k); lemma_pS(k + 1);
    let x = at(A, top - k); let y = at(D, top - k); let z = at(vv, n2 - k); let q = p(k);
    assert(x * q + c1 * (10000 * q) == y * q + c0 * q + z * q) by (nonlinear_arith) requires x + 10000 * c1 == y + c0 + z;
}
// a borrow out of the window means the estimate was one too large
pub proof fn lemma_borrow(u: int, bb: int, qh: int, x: int, borrow: int, P: int)
    requires bb > 0, 0 <= x < P, borrow == 0 || borrow == -1, x + borrow * P == u - qh * bb, u / bb <= qh <= u / bb + 1
    ensures borrow == 0 <==> qh == u / bb, borrow == 0 ==> x == u - qh * bb, borrow != 0 ==> qh == u / bb + 1 && x == u - qh * bb + P
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, bb); let q = u / bb; assert(bb * q == q * bb) by (nonlinear_arith); assert((q + 1) * bb == q * bb + bb) by (nonlinear_arith);
    assert(-1 * P == -P); assert(0 * P == 0);
}
pub proof fn lemma_addback(u: int, bb: int, qh: int, x: int, y: int, carry: int, P: int)
    requires bb > 0, 0 <= y < P, carry == 0 || carry == 1, y + carry * P == x + bb, x == u - qh * bb + P, qh == u / bb + 1
    ensures carry == 1, y == u - (qh - 1) * bb
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, bb); let q = u / bb; assert(bb * q == q * bb) by (nonlinear_arith); assert((q + 1) * bb == q * bb + bb) by (nonlinear_arith);
    assert(1 * P == P); assert(0 * P == 0);
}
pub proof fn lemma_div_upd(D: Seq<i16>, E: Seq<i16>, j: int, n2: int, dn: int, u: int, x: int)
    requires D.len() == dn + 1, E.len() == dn + 1, j >= 0, n2 >= 1, j + n2 <= dn, digs(D), digs(E), u == val(D, j + n2), val(D, j - 1) == 0,
        forall|i: int| 0 <= i < j || j + n2 < i <= dn ==> E[i] == D[i], lo(E, j + n2, n2 + 1) == x
    ensures val(E, j + n2) == x, val(E, dn) == val(D, dn) - (u - x) * p(dn - j - n2)
{
    lemma_lo_split(E, j + n2, n2 + 1, j); assert forall|i: int| 0 <= i <= j - 1 implies at(D, i) == #[trigger] at(E, i) by {} lemma_val_congr(D, E, j - 1); assert(lo(E, j + n2 - (n2 + 1), j) == val(E, j - 1)); assert(0 * p(n2 + 1) == 0);
    lemma_val_cut(D, dn, j + n2 + 1); lemma_val_cut(E, dn, j + n2 + 1);
    let c = dn - j - n2;
    assert forall|k: int| 0 <= k < c implies at(D, dn - k) == #[trigger] at(E, dn - k) by {} lemma_lo_congr(D, dn, E, dn, c);
    let q = p(c); assert(u * q - x * q == (u - x) * q) by (nonlinear_arith);
}
pub proof fn lemma_res_step(e: Seq<i16>, r: Seq<i16>, j: int, q: int, bb: int, dn: int, n2: int)
    requires 0 <= j < e.len(), r.len() == e.len(), r[j] == q, forall|i: int| 0 <= i < j ==> r[i] == e[i], j + n2 <= dn, n2 >= 0
    ensures (val(r, j) * bb) * p(dn - (j + n2)) == (val(e, j - 1) * bb) * p(dn - (j - 1 + n2)) + (q * bb) * p(dn - (j + n2))
{
    lemma_val_step(r, j); assert forall|i: int| 0 <= i <= j - 1 implies at(e, i) == #[trigger] at(r, i) by {} lemma_val_congr(e, r, j - 1);
    let c = dn - (j + n2); lemma_pS(c + 1); let z = val(e, j - 1); let P = p(c);
    assert(((10000 * z + q) * bb) * P == (z * bb) * (10000 * P) + (q * bb) * P) by (nonlinear_arith);
}
pub proof fn lemma_div_finish(D: Seq<i16>, TT: int, Q: int, bb: int, dn: int, k: int, d: int, b: int, T: int)
    requires digs(D), D.len() == dn + 1, 0 <= k <= dn, 0 <= val(D, k) < bb, TT == val(D, dn) + (Q * bb) * p(dn - k), TT == d * T, bb == d * b, d >= 1, b >= 1
    ensures Q == T / (b * p(dn - k))
{
    let P = p(dn - k); lemma_ppos(dn - k); lemma_val_cut(D, dn, k + 1); lemma_lo_bounds(D, dn, dn - k); let x = val(D, k); let l = lo(D, dn, dn - k);
    let r = x * P + l; assert(0 <= r < bb * P) by (nonlinear_arith) requires 0 <= x, x <= bb - 1, 0 <= l < P, r == x * P + l;
    let y = T - (Q * b) * P;
    assert(d * y == r) by { assert((Q * bb) * P == d * ((Q * b) * P)) by (nonlinear_arith) requires bb == d * b; assert(d * y == d * T - d * ((Q * b) * P)) by (nonlinear_arith) requires y == T - (Q * b) * P; }
    assert(y >= 0) by (nonlinear_arith) requires d * y >= 0, d >= 1;
    assert(d * (b * P) == bb * P) by (nonlinear_arith) requires bb == d * b;
    let z = b * P; assert(y < z) by (nonlinear_arith) requires d * y < d * z, d >= 1;
    assert((Q * b) * P == Q * z) by (nonlinear_arith) requires z == b * P;
    lemma_div_unique(T, z, Q, y);
}
// floor of the scaled quotient
pub proof fn lemma_div_value(s1: Seq<i16>, w1: int, s2: Seq<i16>, w2: int, R: int, dn: int, Q: int)
    requires digs(s1), digs(s2), 0 < s2.len() <= 45000, s1.len() <= 45000, s2[0] > 0, -45000 <= w1 <= 45000, -45000 <= w2 <= 45000, s1.len() - 1 - w1 <= 45000, s2.len() - 1 - w2 <= 45000, 1 <= R, R + s2.len() <= dn, s1.len() <= dn, R <= 98000, w1 - w2 - (R - 1) >= -98000, dn <= 150000,
        Q == val(s1, dn - 1) / (val(s2, s2.len() - 1) * p(dn - (R - 1 + s2.len())))
    ensures V(s2, w2) > 0, ({ let e = w1 - w2 - (R - 1); e + KK >= 0 && V(s2, w2) * p(e + KK) > 0 && Q == (V(s1, w1) * p(KK)) / (V(s2, w2) * p(e + KK)) })
{
    let n2 = s2.len() as int; let e = w1 - w2 - (R - 1); let b = val(s2, n2 - 1); let T = val(s1, dn - 1); let k = R - 1 + n2;
    lemma_val_first(s2, n2 - 1); lemma_ppos(n2 - 1);
    lemma_val_shift(s1, w1 + KK, KK); let N = V(s1, w1) * p(KK); assert(N == val(s1, w1 + 2 * KK));
    let g = w1 + 2 * KK - (dn - 1); lemma_val_shift(s1, dn - 1, g); assert(N == T * p(g));
    lemma_val_shift(s2, n2 - 1, w2 + KK + 1 - n2); let y = V(s2, w2); let py = p(w2 + KK + 1 - n2); assert(y == b * py);
    let pe = p(e + KK); let f = w1 + 2 * KK + 2 - n2 - R; lemma_padd(w2 + KK + 1 - n2, e + KK); lemma_padd(dn - k, g);
    assert(f == w2 + KK + 1 - n2 + e + KK); assert(f == dn - k + g);
    let pd = p(dn - k); let pg = p(g); lemma_ppos(dn - k); lemma_ppos(g); lemma_ppos(e + KK); lemma_ppos(w2 + KK + 1 - n2);
    assert(y * pe == (b * pd) * pg) by { assert((b * py) * pe == b * (py * pe)) by (nonlinear_arith); assert(b * (pd * pg) == (b * pd) * pg) by (nonlinear_arith); }
    let z = b * pd; assert(z > 0) by (nonlinear_arith) requires b >= 1, pd >= 1, z == b * pd;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(T, z); let r = T % z; assert(z * Q == Q * z) by (nonlinear_arith);
    assert(T * pg == Q * (z * pg) + r * pg) by (nonlinear_arith) requires T == z * Q + r;
    assert(0 <= r * pg < z * pg) by (nonlinear_arith) requires 0 <= r < z, pg >= 1;
    lemma_div_unique(N, z * pg, Q, r * pg);
    assert(y > 0) by (nonlinear_arith) requires y == b * py, b >= 1, py >= 1;
}
// rounding (truncating) the floor taken at a finer unit rounds (truncates) the quotient
pub proof fn lemma_quot(x: int, y: int, ds: int, e: int, m: int, round: bool)
    requires x >= 0, y > 0, 0 <= ds <= 200000, e + KK >= 0, m == ((x * p(KK)) / (y * p(e + KK))) * p(e + KK), if round { 4 * e + 4 <= -ds } else { 4 * e <= -ds }
    ensures round ==> roundm(m, ds) == quot_round(x, y, ds), !round ==> truncm(m, ds) == quot_trunc(x, y, ds)
{
    let u = U(ds); let pe = p(e + KK); lemma_pt(e + KK); lemma_ppos(e + KK); let c = 4 * KK - ds - 4 * (e + KK); lemma_tadd(4 * (e + KK), c); lemma_tpos(c); let g = t(c);
    assert(u == pe * g); lemma_U(ds); lemma_ppos(KK);
    let N = x * p(KK); assert(N >= 0) by (nonlinear_arith) requires x >= 0, p(KK) >= 1, N == x * p(KK);
    let yp = y * pe; assert(yp > 0) by (nonlinear_arith) requires y > 0, pe > 0, yp == y * pe; let Q = N / yp;
    assert(y * u == yp * g) by (nonlinear_arith) requires u == pe * g, yp == y * pe;
    if round {
        lemma_tS(c); let h = g / 2; assert(g == 2 * h); assert(u / 2 == pe * h) by { assert(pe * g == 2 * (pe * h)) by (nonlinear_arith) requires g == 2 * h; }
        assert(y * (u / 2) == h * yp) by (nonlinear_arith) requires u / 2 == pe * h, yp == y * pe;
        vstd::arithmetic::div_mod::lemma_div_denominator(N + h * yp, yp, g);
        vstd::arithmetic::div_mod::lemma_hoist_over_denominator(N, h, yp as nat);
        assert((N + h * yp) / yp == Q + h);
        assert(N + h * yp >= 0) by (nonlinear_arith) requires N >= 0, h >= 0, yp > 0;
        assert(m + u / 2 == (Q + h) * pe) by (nonlinear_arith) requires m == Q * pe, u / 2 == pe * h;
        assert(Q >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(N, yp); }
        lemma_cancel(Q + h, pe, g);
        assert((Q + h) * pe / (g * pe) == (Q + h) / g); assert(g * pe == u) by (nonlinear_arith) requires u == pe * g;
    } else {
        vstd::arithmetic::div_mod::lemma_div_denominator(N, yp, g);
        assert(Q >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(N, yp); }
        lemma_cancel(Q, pe, g); assert(g * pe == u) by (nonlinear_arith) requires u == pe * g;
    }
}
pub proof fn lemma_cancel(a: int, b: int, g: int) requires a >= 0, b > 0, g > 0 ensures (a * b) / (g * b) == a / g, g * b > 0
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, g); let q = a / g; let r = a % g;
    assert(a * b == q * (g * b) + r * b) by (nonlinear_arith) requires a == g * q + r; assert(0 <= r * b < g * b) by (nonlinear_arith) requires 0 <= r < g, b > 0;
    assert(g * b > 0) by (nonlinear_arith) requires g > 0, b > 0;
    lemma_div_unique(a * b, g * b, q, r * b);
}
// ---- results of division at the user's level
pub proof fn lemma_quot_scale(x: int, y: int, ds: int) requires ds < 4 * KK
    ensures dvd(U(ds), quot_round(x, y, ds)), dvd(U(ds), -quot_round(x, y, ds)), dvd(U(ds), quot_trunc(x, y, ds)), dvd(U(ds), -quot_trunc(x, y, ds))
{
    lemma_U(ds); let u = U(ds); lemma_dvd_mul(u, (x * p(KK) + y * (u / 2)) / (y * u)); lemma_dvd_mul(u, x * p(KK) / (y * u));
    lemma_dvd_neg(u, quot_round(x, y, ds)); lemma_dvd_neg(u, quot_trunc(x, y, ds));
}
pub proof fn lemma_quot_pos(x: int, y: int, ds: int) requires ds < 4 * KK, x >= 0, y > 0 ensures quot_round(x, y, ds) >= 0, quot_trunc(x, y, ds) >= 0
{
    lemma_U(ds); let u = U(ds); lemma_ppos(KK); let n = x * p(KK); assert(n >= 0) by (nonlinear_arith) requires x >= 0, p(KK) >= 1, n == x * p(KK);
    assert(y * u > 0) by (nonlinear_arith) requires y > 0, u > 0; assert(y * (u / 2) >= 0) by (nonlinear_arith) requires y > 0, u / 2 >= 0;
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, y * u); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n + y * (u / 2), y * u);
    let a = n / (y * u); let b = (n + y * (u / 2)) / (y * u); assert(a * u >= 0) by (nonlinear_arith) requires a >= 0, u > 0; assert(b * u >= 0) by (nonlinear_arith) requires b >= 0, u > 0;
}
// the truncated quotient at scale 0 is the integer quotient, and the identity of division
pub proof fn lemma_rem(x: int, y: int) requires x >= 0, y > 0
    ensures quot_trunc(x, y, 0) == (x / y) * p(KK), x / y >= 0, x == (x / y) * y + x % y, 0 <= x % y < y, ((x / y) * p(KK)) / p(KK) == x / y, (-((x / y) * p(KK))) / p(KK) == -(x / y),
        mulm((x / y) * p(KK), y) == (x / y) * y
{
    let u = p(KK); lemma_ppos(KK); lemma_pt(KK); assert(U(0) == u); lemma_cancel(x, u, y); assert(y * u == u * y) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y); let k = x / y; assert(y * k == k * y) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, y);
    lemma_dvd_mul(u, k); lemma_dvd_mul(u, -k); assert(-k * u == -(k * u)) by (nonlinear_arith);
    assert((k * u) * y == (k * y) * u) by (nonlinear_arith); lemma_dvd_mul(u, k * y);
}
pub proof fn lemma_remv(x: int, y: int) requires y != 0
    ensures remv(x, y) == (if x < 0 { -(iabs(x) % iabs(y)) } else { iabs(x) % iabs(y) }), iabs(remv(x, y)) < iabs(y), remv(x, y) == 0 || (remv(x, y) < 0) == (x < 0)
{
    lemma_rem(iabs(x), iabs(y)); let k = iabs(x) / iabs(y); assert(-k * y == -(k * y)) by (nonlinear_arith); assert(k * -y == -(k * y)) by (nonlinear_arith); assert(-k * -y == k * y) by (nonlinear_arith);
}
pub proof fn lemma_rem_fits(a: NView, b: NView) requires a.can(), b.can(), !a.nan, !b.nan, b.mag() > 0
    ensures ({ let ds = imax(a.dscale, b.dscale); let r = remv(a.iv(), b.iv()); dvd(U(ds), r) && fits(iabs(r), ds) })
{
    let ds = imax(a.dscale, b.dscale); let x = a.mag(); let y = b.mag(); lemma_can_facts(a); lemma_can_facts(b); lemma_rem(x, y); lemma_remv(a.iv(), b.iv());
    let k = x / y; let u = U(ds); lemma_U(ds); lemma_scale_up(x, a.dscale, ds); lemma_scale_up(y, b.dscale, ds); lemma_dvd_prod(u, y, k); assert(k * y == y * k) by (nonlinear_arith);
    lemma_dvd_add(u, x, k * y); let r = x % y; assert(dvd(u, r)); lemma_dvd_neg(u, r);
    assert(iabs(a.iv()) == x); assert(iabs(b.iv()) == y);
    lemma_dvd_i(u, r); let q = r / u;
    if r > 0 { assert(q >= 1) by (nonlinear_arith) requires r == q * u, r > 0, u > 0; assert(r >= u) by (nonlinear_arith) requires r == q * u, q >= 1, u > 0; lemma_tmono(4 * (KK - 32767), 4 * KK - ds); lemma_pt(KK - 32767); }
}
// the selected scale gives at least 16 significant digits unless it is capped
pub proof fn lemma_div_sig(s1: Seq<i16>, w1: int, d1: int, s2: Seq<i16>, w2: int, d2: int)
    requires digs(s1), digs(s2), s1.len() > 0, s2.len() > 0, s1[0] != 0, s2[0] != 0, -45000 <= w1 <= 45000, -45000 <= w2 <= 45000
    ensures ({ let ds = div_scale(s1, w1, d1, s2, w2, d2); ds < 1000 ==> quot_round(V(s1, w1), V(s2, w2), ds) >= t(16) * U(ds) })
{
    let ds = div_scale(s1, w1, d1, s2, w2, d2);
    if ds < 1000 {
        let x = V(s1, w1); let y = V(s2, w2); let f = s1[0] as int; let g = s2[0] as int; let u = U(ds); lemma_U(ds);
        lemma_val_first(s1, w1 + KK); lemma_val_first(s2, w2 + KK); let pa = p(w1 + KK); let pb = p(w2 + KK); lemma_ppos(w1 + KK); lemma_ppos(w2 + KK); lemma_ppos(KK);
        let qw = if f <= g { w1 - w2 - 1 } else { w1 - w2 };
        assert(ds >= 16 - 4 * qw);
        // x*p(KK) >= y * p(qw+KK)
        let pq = p(qw + KK); lemma_ppos(qw + KK); let n = x * p(KK);
        assert(n >= y * pq) by {
            lemma_padd(w1 + KK, KK); assert(pa * p(KK) == p(w1 + 2 * KK));
            lemma_padd(w2 + KK, qw + KK); assert(pb * pq == p(w2 + qw + 2 * KK));
            let P = pb * pq; assert(P >= 1) by (nonlinear_arith) requires pb >= 1, pq >= 1, P == pb * pq;
            assert(n >= f * (pa * p(KK))) by (nonlinear_arith) requires n == x * p(KK), x >= f * pa, p(KK) >= 1;
            assert(y * pq <= (g + 1) * P) by (nonlinear_arith) requires y <= (g + 1) * pb, pq >= 1, P == pb * pq;
            let h = pa * p(KK);
            if f <= g { lemma_pS(w1 + 2 * KK); assert(h == 10000 * P); assert(f * h >= 10000 * P) by (nonlinear_arith) requires f >= 1, h == 10000 * P, P >= 1; assert((g + 1) * P <= 10000 * P) by (nonlinear_arith) requires g + 1 <= 10000, P >= 1; }
            else { assert(h == P); assert(f * h >= (g + 1) * P) by (nonlinear_arith) requires f >= g + 1, h == P, P >= 1; }
        }
        lemma_pt(qw + KK); let c = 4 * (qw + KK) - (4 * KK - ds); assert(c >= 16); lemma_tadd(4 * KK - ds, c); lemma_tmono(16, c); let tc = t(c); assert(pq == u * tc);
        let yu = y * u; assert(y > 0) by (nonlinear_arith) requires y >= g * pb, g >= 1, pb >= 1; assert(yu > 0) by (nonlinear_arith) requires y > 0, u > 0, yu == y * u;
        assert(y * pq == tc * yu) by (nonlinear_arith) requires pq == u * tc, yu == y * u;
        assert(y * (u / 2) >= 0) by (nonlinear_arith) requires y > 0, u / 2 >= 0;
        lemma_le_div(n + y * (u / 2), yu, tc); let q = (n + y * (u / 2)) / yu; lemma_tpos(16);
        assert(q * u >= t(16) * u) by (nonlinear_arith) requires q >= t(16), u > 0;
    }
}
pub proof fn lemma_var_can(v: &NumericVar) requires v.can()
    ensures div_sz(v, 45000), sz(v, 45000), v.sign == 0 || v.sign == 0x4000, v.mag() >= 0, v.ndigits == 0 ==> v.mag() == 0 && v.weight == 0, v.ndigits > 0 ==> v.mag() > 0 && v.sd()[0] != 0 && v.sd()[0] == v.digits.ds()[0] && v.weight >= -4096, v.iv() == v.view().iv(), v.mag() == v.view().mag(),
        dvd(U(v.dscale as int), v.mag()), 0 <= v.dscale <= 16383, v.ndigits <= 36865, v.weight <= 32767, v.ndigits > 0 ==> v.ndigits <= v.weight + 1 + (v.dscale + 3) / 4
{ lemma_can_facts(v.view()); }
pub proof fn lemma_div_weight(a: &NumericVar, b: &NumericVar, q: &NumericVar) requires a.can(), b.can(), q.st(), q.norm(), b.mag() > 0, q.ndigits > 0 ==> q.weight <= a.weight - b.weight + 1, q.mag() == quot_trunc(a.mag(), b.mag(), 0)
    ensures mul_ok(q, b, b.dscale as int), q.ndigits > 0 ==> 0 <= q.weight <= 36864 && q.ndigits <= q.weight + 1 && q.weight <= a.weight - b.weight + 1
{
    lemma_var_can(a); lemma_var_can(b); lemma_quot_scale(a.mag(), b.mag(), 0);
    if q.ndigits > 0 { lemma_last_digit(q.sd(), q.weight as int, 0); }
}
