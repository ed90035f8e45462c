// ---------------------------------------------------------------- lemmas about the views
pub proof fn lemma_zero_view() ensures forall|v: NView| v.digits.len() == 0 ==> v.mag() == 0, dvd(U(0), 0)
{ assert forall|v: NView| v.digits.len() == 0 implies v.mag() == 0 by { lemma_val_empty(v.digits, v.weight + KK); } lemma_U(0); }
pub proof fn lemma_dvd_neg(d: int, n: int) requires d > 0, dvd(d, n) ensures dvd(d, -n)
{ lemma_dvd_i(d, n); let q = n / d; assert((-q) * d == -(q * d)) by (nonlinear_arith); lemma_dvd_mul(d, -q); }
// after strip(): the weight limits are exactly the magnitude limits
pub proof fn lemma_fits(v: &NumericVar) requires v.wst(), v.norm(),
    v.ndigits > 0 ==> p(v.weight + KK) <= v.mag() < p(v.weight + KK + 1) && v.mag() >= 1, v.ndigits == 0 ==> v.mag() == 0
    ensures fits(v.mag(), v.dscale as int) <==> -32767 <= v.weight <= 32767 && v.dscale <= 16383
{
    lemma_ppos(KK + 32768);
    if v.ndigits > 0 {
        if v.weight <= 32767 { lemma_pmono(v.weight + KK + 1, KK + 32768); } else { lemma_pmono(KK + 32768, v.weight + KK); }
        if v.weight >= -32767 { lemma_pmono(KK - 32767, v.weight + KK); } else { lemma_pmono(v.weight + KK + 1, KK - 32767); }
    }
}
// a stripped value on scale is canonical
pub proof fn lemma_norm_can(v: &NumericVar, iv: int) requires v.wst(), v.norm(), v.iv() == iv, -32767 <= v.weight <= 32767, 0 <= v.dscale <= 16383, v.mag() >= 0
    ensures dvd(U(v.dscale as int), iv) ==> v.view().can() && v.can()
{
    let ds = v.dscale as int; let s = v.sd(); let n = v.ndigits as int; let w = v.weight as int;
    lemma_U(ds);
    if dvd(U(ds), iv) {
        if v.sign == 0x4000 { lemma_dvd_neg(U(ds), iv); }
        assert(dvd(U(ds), v.mag()));
        if n > 0 { lemma_last_digit(s, w, ds); }
    }
}
// a value on scale ds whose last stored digit is nonzero stores no digit beyond the scale
pub proof fn lemma_last_digit(s: Seq<i16>, w: int, ds: int) requires digs(s), s.len() > 0, s.last() != 0, 0 <= ds <= 200000, dvd(U(ds), V(s, w)), -99000 <= w, s.len() - 1 - w <= 99000
    ensures s.len() <= w + 1 + (ds + 3) / 4
{
    let n = s.len() as int; let c = (ds + 3) / 4;
    if n > w + 1 + c {
        let k = KK + w - (n - 1); let top = w + KK;    // k: power of the last digit
        assert(0 <= k < KK - c);
        lemma_V_at(s, w, w - (n - 1), if w >= w - (n - 1) { w } else { w - (n - 1) });
        lemma_lo_right(s, top, k); lemma_p0();
        let d = s.last() as int; let h = lo(s, n - 2, n - 1); let m = V(s, w);
        assert(m == d * p(k) + h * p(k + 1));
        lemma_ppos(k); lemma_pS(k + 1);
        assert(0 < d * p(k) < p(k + 1)) by (nonlinear_arith) requires 0 < d < 10000, p(k) >= 1, p(k + 1) == 10000 * p(k);
        lemma_div_unique(m, p(k + 1), h, d * p(k));
        // but p(k+1) divides U(ds), which divides m
        lemma_pt(k + 1); lemma_t_dvd(4 * (k + 1), 4 * KK - ds); lemma_U(ds);
        lemma_dvd_trans(p(k + 1), U(ds), m);
    }
}
pub proof fn lemma_can_facts(v: NView) requires v.can()
    ensures v.nan ==> v == nan_view(), nan_view().can(),
        !v.nan ==> v.mag() >= 0 && fits(v.mag(), v.dscale) && dvd(U(v.dscale), v.mag()) && dvd(U(v.dscale), v.iv()) && dvd(U(v.dscale), -v.iv()) && U(v.dscale) > 0,
        !v.nan && v.digits.len() == 0 ==> v.mag() == 0 && v.iv() == 0,
        !v.nan && v.digits.len() > 0 ==> v.mag() > 0 && p(v.weight + KK) <= v.mag() < p(v.weight + KK + 1),
{
    if v.nan { assert(v.digits =~= seq![]); assert(v == nan_view()); } else {
        lemma_val_bounds(v.digits, v.weight + KK); lemma_ppos(KK + 32768); lemma_U(v.dscale); lemma_dvd_neg(U(v.dscale), v.mag());
        if v.digits.len() == 0 { lemma_val_empty(v.digits, v.weight + KK); } else {
            lemma_val_first(v.digits, v.weight + KK); lemma_ppos(v.weight + KK);
            lemma_pmono(v.weight + KK + 1, KK + 32768); lemma_pmono(KK - 32767, v.weight + KK);
        }
    }
}
pub proof fn lemma_sum_scale(a: NView, b: NView) requires a.can(), b.can()
    ensures !a.nan && !b.nan ==> dvd(U(imax(a.dscale, b.dscale)), a.iv() + b.iv()) && dvd(U(imax(a.dscale, b.dscale)), a.iv() - b.iv())
{
    lemma_can_facts(a); lemma_can_facts(b);
    if !a.nan && !b.nan { let d = imax(a.dscale, b.dscale); lemma_scale_up(a.iv(), a.dscale, d); lemma_scale_up(b.iv(), b.dscale, d); lemma_U(d); lemma_dvd_add(U(d), a.iv(), b.iv()); }
}
// integers: i*p(KK) is on scale 0
pub proof fn lemma_int_scale(i: int) ensures dvd(U(0), i * p(KK)), U(0) == p(KK) { lemma_pt(KK); lemma_ppos(KK); lemma_dvd_mul(U(0), i); }
pub proof fn lemma_fits_int(i: int) requires 0 <= i < 10000 ensures fits(i * p(KK), 0)
{
    lemma_ppos(KK); lemma_pS(KK + 1); lemma_pmono(KK + 1, KK + 32768); lemma_pmono(KK - 32767, KK); let u = p(KK);
    assert(i * u < 10000 * u) by (nonlinear_arith) requires i < 10000, u >= 1;
    if i >= 1 { assert(i * u >= u) by (nonlinear_arith) requires i >= 1, u >= 1; } else { assert(i * u == 0) by (nonlinear_arith) requires i == 0; }
}
// a single digit
pub proof fn lemma_val_one(s: Seq<i16>, w: int, ds: int) requires s.len() == 1, w >= -KK ensures V(s, w) == s[0] * p(w + KK)
{ lemma_loS(s, w + KK, w + KK); lemma_lo_right(s, w + KK, w + KK); assert(at(s, 0) == s[0]); }
// ---- rounding: everything above weight is lost
pub proof fn lemma_round_small(s: Seq<i16>, w: int, rs: int) requires digs(s), -99000 <= w <= 99000, -99000 <= rs <= 200000
    ensures (w + 1) * 4 + rs < 0 ==> roundm(V(s, w), rs) == 0, (w + 1) * 4 + rs <= 0 ==> truncm(V(s, w), rs) == 0
{
    let m = V(s, w); let k = w + KK + 1;
    lemma_val_bounds(s, w + KK); lemma_pt(k); lemma_U(rs);
    if (w + 1) * 4 + rs < 0 { lemma_tmono(4 * k, 4 * KK - rs - 1); lemma_round_by(m, rs, 0, m); }
    if (w + 1) * 4 + rs <= 0 { lemma_tmono(4 * k, 4 * KK - rs); lemma_round_by(m, rs, 0, m); }
    assert(0 * U(rs) == 0);
}
// no stored digit beyond the scale
pub proof fn lemma_round_noop(s: Seq<i16>, w: int, rs: int) requires digs(s), -99000 <= w <= 99000, -99000 <= rs <= 200000, s.len() - 1 - w <= 99000, (w + 1) * 4 + rs >= 4 * s.len()
    ensures roundm(V(s, w), rs) == V(s, w), truncm(V(s, w), rs) == V(s, w), dvd(U(rs), V(s, w))
{
    let n = s.len() as int; let e = w + KK + 1 - n; let m = V(s, w);
    assert(m >= 0) by { lemma_val_bounds(s, w + KK); }
    assert(dvd(U(rs), m)) by {
        lemma_val_shift(s, n - 1, e);
        lemma_pt(e); lemma_t_dvd(4 * KK - rs, 4 * e); lemma_tpos(4 * KK - rs); lemma_ppos(e);
        lemma_dvd_mul(p(e), val(s, n - 1)); lemma_dvd_trans(U(rs), p(e), m);
    }
    lemma_round_exact(m, rs);
}
// the cut is between digits
pub proof fn lemma_round_cut0(s: Seq<i16>, w: int, rs: int, nd: int) requires digs(s), -99000 <= w <= 99000, -99000 <= rs <= 200000, s.len() - 1 - w <= 99000, (w + 1) * 4 + rs == 4 * nd, 0 <= nd < s.len()
    ensures ({ let e = w + KK + 1 - nd; let a = val(s, nd - 1); roundm(V(s, w), rs) == (if s[nd] >= 5000 { a + 1 } else { a }) * p(e) && truncm(V(s, w), rs) == a * p(e) })
{
    let e = w + KK + 1 - nd; let top = w + KK; let a = val(s, nd - 1); let m = V(s, w);
    lemma_val_cut(s, top, nd); lemma_pt(e); lemma_loS(s, top, e - 1); lemma_pS(e);
    lemma_lo_bounds(s, top, e); lemma_lo_bounds(s, top, e - 1);
    let d = s[nd] as int; let q = p(e - 1); let r = lo(s, top, e);
    assert(U(rs) == 10000 * q); assert(at(s, top - (e - 1)) == d);
    if d >= 5000 { assert(d * q >= 5000 * q) by (nonlinear_arith) requires d >= 5000, q >= 1; }
    else { assert(d * q <= 4999 * q) by (nonlinear_arith) requires d <= 4999, q >= 1; }
    lemma_round_by(m, rs, a, r);
}
// the cut is inside digit nd-1, keeping k of its four decimal digits
pub proof fn lemma_round_cutk(s: Seq<i16>, w: int, rs: int, nd: int, k: int) requires digs(s), -99000 <= w <= 99000, -99000 <= rs <= 200000, s.len() - 1 - w <= 99000, 1 <= k <= 3, (w + 1) * 4 + rs == 4 * (nd - 1) + k, 1 <= nd <= s.len()
    ensures ({ let e = w + KK + 1 - nd; let a = val(s, nd - 1); let x = s[nd - 1] as int % t(4 - k);
        roundm(V(s, w), rs) == (if x >= t(4 - k) / 2 { a - x + t(4 - k) } else { a - x }) * p(e) && truncm(V(s, w), rs) == (a - x) * p(e) })
{
    let e = w + KK + 1 - nd; let top = w + KK; let a = val(s, nd - 1); let m = V(s, w); let c = t(4 - k); let d = s[nd - 1] as int; let x = d % c;
    lemma_val_cut(s, top, nd); lemma_pt(e); lemma_lo_bounds(s, top, e); lemma_t0(); lemma_ppos(e); lemma_tadd(4 * e, 4 - k);
    let q = p(e); let r = lo(s, top, e);
    assert(U(rs) == q * c);
    lemma_lo_split(s, nd - 1, 1, nd - 1); lemma_loS(s, nd - 1, 0); lemma_lo0(s, nd - 1, 0); lemma_p0();
    let h = lo(s, nd - 2, nd - 1);
    assert(a == d + h * 10000);
    let f = if k == 1 { 10int } else if k == 2 { 100 } else { 1000 };
    assert(f * c == 10000);
    let b = h * f + d / c;
    assert(a - x == b * c) by {
        assert(d == c * (d / c) + x) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, c); }
        assert((h * f + d / c) * c == h * (f * c) + c * (d / c)) by (nonlinear_arith);
    }
    assert((a - x) * q == b * (q * c)) by (nonlinear_arith) requires a - x == b * c;
    assert((a - x + c) * q == (b + 1) * (q * c)) by (nonlinear_arith) requires a - x == b * c;
    assert(m == b * (q * c) + (x * q + r)) by { assert(a * q == (a - x) * q + x * q) by (nonlinear_arith); }
    assert(0 <= x * q + r < q * c) by (nonlinear_arith) requires 0 <= x <= c - 1, 0 <= r < q, q >= 1;
    let hc = c / 2; assert(c == 2 * hc); 
    assert(q * c == 2 * (hc * q)) by (nonlinear_arith) requires c == 2 * hc;
    if x >= hc { assert(x * q >= hc * q) by (nonlinear_arith) requires x >= hc, q >= 1; }
    else { assert(x * q + q <= hc * q) by (nonlinear_arith) requires x + 1 <= hc, q >= 1; }
    lemma_round_by(m, rs, b, x * q + r);
}
// a spare leading cell holding zero
pub proof fn lemma_cell0(D: Seq<i16>, s: Seq<i16>, nd: int) requires nd >= 0, D.len() == nd + 1, s.len() >= nd, D[0] == 0, forall|i: int| 0 <= i < nd ==> #[trigger] D[i + 1] == s[i]
    ensures val(D, nd) == val(s, nd - 1)
{
    lemma_loS(D, nd, nd); assert(0 * p(nd) == 0);
    assert forall|j: int| 0 <= j < nd implies at(D, nd - j) == #[trigger] at(s, nd - 1 - j) by { let i = nd - 1 - j; assert(D[i + 1] == s[i]); }
    lemma_lo_congr(D, nd, s, nd - 1, nd);
}
// truncation against floor and ceiling
pub proof fn lemma_ceil(m: int, x: int) requires m >= 0, x == m || x == -m
    ensures U(0) == p(KK), p(KK) > 0, truncm(m, 0) >= 0,
        x >= 0 ==> floor_iv(x) == truncm(m, 0) && (truncm(m, 0) == m ==> ceil_iv(x) == x) && (truncm(m, 0) != m ==> ceil_iv(x) == truncm(m, 0) + p(KK)),
        x <= 0 ==> ceil_iv(x) == -truncm(m, 0) && (truncm(m, 0) == m ==> floor_iv(x) == x) && (truncm(m, 0) != m ==> floor_iv(x) == -truncm(m, 0) - p(KK)),
        dvd(U(0), ceil_iv(x)), dvd(U(0), floor_iv(x)), dvd(U(0), p(KK))
{
    let u = p(KK); lemma_ppos(KK); lemma_pt(KK); lemma_int_scale(x / u); lemma_int_scale(-x / u); lemma_int_scale(1);
    lemma_dvd_neg(U(0), (-x / u) * u);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, u);
    let q = m / u; let r = m % u; assert(u * q == q * u) by (nonlinear_arith); assert(q * u >= 0) by (nonlinear_arith) requires q >= 0, u > 0;
    if r == 0 { assert(-m == (-q) * u) by (nonlinear_arith) requires m == q * u; lemma_div_unique(-m, u, -q, 0); }
    else { assert(-m == (-q - 1) * u + (u - r)) by (nonlinear_arith) requires m == q * u + r; lemma_div_unique(-m, u, -q - 1, u - r); assert((-q - 1) * u == -(q * u) - u) by (nonlinear_arith); }
}
pub proof fn lemma_round_facts(x: int, ds: int) requires -1000 <= ds <= 1000
    ensures dvd(U(imax(ds, 0)), round_iv(x, ds)), dvd(U(imax(ds, 0)), trunc_iv(x, ds)), roundm(iabs(x), ds) >= 0, truncm(iabs(x), ds) >= 0,
        iabs(round_iv(x, ds)) == roundm(iabs(x), ds), iabs(trunc_iv(x, ds)) == truncm(iabs(x), ds)
{
    let m = iabs(x); let u = U(ds); lemma_U(ds); lemma_dvd_mul(u, (m + u / 2) / u); lemma_dvd_mul(u, m / u); lemma_U(imax(ds, 0));
    lemma_scale_up(roundm(m, ds), ds, imax(ds, 0)); lemma_scale_up(truncm(m, ds), ds, imax(ds, 0));
    lemma_dvd_neg(U(imax(ds, 0)), roundm(m, ds)); lemma_dvd_neg(U(imax(ds, 0)), truncm(m, ds));
    let a = (m + u / 2) / u; let b = m / u;
    assert(a >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m + u / 2, u); } assert(b >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, u); }
    assert(a * u >= 0) by (nonlinear_arith) requires a >= 0, u > 0; assert(b * u >= 0) by (nonlinear_arith) requires b >= 0, u > 0;
}
// truncation of a representable value is representable
pub proof fn lemma_trunc_fits(v: NView, ds: int) requires v.can(), !v.nan, -1000 <= ds <= 1000 ensures fits(truncm(v.mag(), ds), imax(ds, 0))
{
    lemma_can_facts(v); let m = v.mag(); let u = U(ds); lemma_U(ds); let b = m / u;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, u); assert(u * b == b * u) by (nonlinear_arith);
    assert(b >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, u); }
    if b >= 1 { assert(b * u >= u) by (nonlinear_arith) requires b >= 1, u > 0; lemma_tmono(4 * (KK - 32767), 4 * KK - ds); lemma_pt(KK - 32767); } else { assert(0 * u == 0); }
}
pub proof fn lemma_trunc_pos(m: int) requires m >= p(KK) ensures truncm(m, 0) >= p(KK), p(KK) > 0
{ let u = p(KK); lemma_ppos(KK); lemma_pt(KK); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, u); let b = m / u; assert(u * b == b * u) by (nonlinear_arith);
  if b <= 0 { assert(b * u <= 0) by (nonlinear_arith) requires b <= 0, u > 0; } assert(b * u >= u) by (nonlinear_arith) requires b >= 1, u > 0; }
// i leading zero digits
pub proof fn lemma_lead(s: Seq<i16>, w: int, i: int) requires digs(s), -99000 <= w <= 99000, 0 <= i <= s.len(), s.len() <= 99000, s.len() - 1 - w <= 99000, forall|j: int| 0 <= j < i ==> s[j] == 0
    ensures i == s.len() ==> V(s, w) == 0 && 0 < U(0), forall|k: int| -2000 <= k <= 2000 ==> 0 < #[trigger] U(k),
        i < s.len() ==> s[i] * p(w - i + KK) <= V(s, w) < (s[i] + 1) * p(w - i + KK)
{
    assert forall|k: int| -2000 <= k <= 2000 implies 0 < #[trigger] U(k) by { lemma_tpos(4 * KK - k); }
    if i == s.len() { assert forall|j: int| 0 <= j < w + KK + 1 implies #[trigger] at(s, w + KK - j) == 0 by {} lemma_lo_zero(s, w + KK, w + KK + 1); } else {
        let q = w - i; let top = if w >= q { w } else { q };
        lemma_V_at(s, w, q, top); assert forall|j: int| 0 <= j < top - q implies #[trigger] at(s, w - q - 1 - j) == 0 by {} lemma_lo_zero(s, w - q - 1, top - q);
        assert(0 * p(q + KK + 1) == 0); let u = p(q + KK); let d = s[i] as int; assert((d + 1) * u == d * u + u) by (nonlinear_arith);
    }
}
// decimal width of one digit
pub open spec fn dw(d: int) -> int { if d < 10 { 1 } else if d < 100 { 2 } else if d < 1000 { 3 } else { 4 } }
pub proof fn lemma_decw(d: int, k: int) requires 1 <= d <= 9999, k >= 0 ensures t(4 * k + dw(d) - 1) <= d * p(k), (d + 1) * p(k) <= t(4 * k + dw(d))
{
    lemma_t0(); lemma_pt(k); lemma_tadd(4 * k, dw(d) - 1); lemma_tadd(4 * k, dw(d)); let u = p(k); lemma_ppos(k);
    let a = t(dw(d) - 1); let b = t(dw(d));
    assert(u * a <= d * u) by (nonlinear_arith) requires a <= d, u >= 1; assert((d + 1) * u <= u * b) by (nonlinear_arith) requires d + 1 <= b, u >= 1;
}
// a value too large for the format overflows every type modifier
pub proof fn lemma_round_fits(v: NView, s: int, pr: int) requires v.can(), !v.nan, 1 <= pr <= 1000, 0 <= s <= pr ensures fits(roundm(v.mag(), s), s) || roundm(v.mag(), s) >= U(s - pr)
{
    let m = v.mag(); let r = roundm(m, s); lemma_can_facts(v); lemma_U(s); let u = U(s); let a = (m + u / 2) / u;
    lemma_round_facts(m, s);
    assert(a * u == r);
    if r != 0 { if a <= 0 { assert(a * u <= 0) by (nonlinear_arith) requires a <= 0, u > 0; } assert(a * u >= u) by (nonlinear_arith) requires a >= 1, u > 0; lemma_pt(KK - 32767); lemma_tmono(4 * (KK - 32767), 4 * KK - s); }
    lemma_pt(KK + 32768); lemma_tmono(4 * KK - s + pr, 4 * (KK + 32768)); 
}
// ---- multiplication
pub proof fn lemma_round_zero(rs: int) requires -99000 <= rs <= 200000 ensures roundm(0, rs) == 0 { lemma_U(rs); lemma_round_by(0, rs, 0, 0); assert(0 * U(rs) == 0); }
pub proof fn lemma_mulm_sym(a: int, b: int) ensures mulm(a, b) == mulm(b, a), a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn lemma_prod_bound(a: int, v2: int, n1: int, n2: int, c: int) requires 0 <= c <= n1, 0 <= a < p(c), 0 <= v2 < p(n2), n2 >= 0 ensures 0 <= a * v2 < p(n1 + n2), p(n1 + n2) < p(n1 + n2 + 1)
{
    lemma_pmono(c, n1); lemma_padd(n1, n2); lemma_pS(n1 + n2 + 1); let x = p(n1); let y = p(n2);
    assert(0 <= a * v2 < x * y) by (nonlinear_arith) requires 0 <= a < x, 0 <= v2 < y;
}
pub open spec fn mulv(s1: Seq<i16>, w1: int, s2: Seq<i16>, w2: int) -> int { val(s1, s1.len() - 1) * val(s2, s2.len() - 1) * p(KK + w1 + w2 + 2 - s1.len() - s2.len()) }
pub proof fn lemma_mul_views(s1: Seq<i16>, w1: int, s2: Seq<i16>, w2: int) requires digs(s1), digs(s2), -45000 <= w1 <= 45000, -45000 <= w2 <= 45000, s1.len() - 1 - w1 <= 99000, s2.len() - 1 - w2 <= 99000
    ensures dvd(p(KK), V(s1, w1) * V(s2, w2)) || s1.len() + s2.len() - 2 - w1 - w2 > KK, s1.len() == 0 || s2.len() == 0 ==> V(s1, w1) * V(s2, w2) == 0 && mulm(V(s1, w1), V(s2, w2)) == 0 && dvd(p(KK), V(s1, w1) * V(s2, w2)),
        s1.len() + s2.len() - 2 - w1 - w2 <= KK ==> mulm(V(s1, w1), V(s2, w2)) == mulv(s1, w1, s2, w2)
{
    let n1 = s1.len() as int; let n2 = s2.len() as int; let a = V(s1, w1); let b = V(s2, w2); let u = p(KK); lemma_ppos(KK);
    if n1 == 0 { lemma_val_empty(s1, w1 + KK); assert(0 * b == 0); lemma_div_unique(0, u, 0, 0); assert(0 * u == 0); }
    if n2 == 0 { lemma_val_empty(s2, w2 + KK); assert(a * 0 == 0); lemma_div_unique(0, u, 0, 0); assert(0 * u == 0); }
    if n1 + n2 - 2 - w1 - w2 <= KK {
        let e1 = w1 + KK + 1 - n1; let e2 = w2 + KK + 1 - n2; let x = val(s1, n1 - 1); let y = val(s2, n2 - 1);
        lemma_val_shift(s1, n1 - 1, e1); lemma_val_shift(s2, n2 - 1, e2);
        let e = KK + w1 + w2 + 2 - n1 - n2;
        lemma_padd(e1, e2); lemma_padd(e, KK);
        let pe = p(e); let p1 = p(e1); let p2 = p(e2);
        assert((x * p1) * (y * p2) == (x * y) * (p1 * p2)) by (nonlinear_arith);
        assert((x * y) * (pe * u) == (x * y * pe) * u) by (nonlinear_arith);
        lemma_dvd_mul(u, x * y * pe);
    }
}
pub proof fn lemma_mul_place(s1: Seq<i16>, w1: int, s2: Seq<i16>, w2: int, r: Seq<i16>)
    requires digs(s1), digs(s2), -45000 <= w1 <= 45000, -45000 <= w2 <= 45000, s1.len() + s2.len() - 2 - w1 - w2 <= 90000, r.len() == s1.len() + s2.len() + 1, val(r, r.len() - 1) == val(s1, s1.len() - 1) * val(s2, s2.len() - 1)
    ensures V(r, w1 + w2 + 2) == mulv(s1, w1, s2, w2)
{ lemma_val_shift(r, r.len() - 1, KK + w1 + w2 + 2 - s1.len() - s2.len()); }
pub proof fn lemma_round_near(m: int, ds: int) requires ds < 4 * KK ensures -U(ds) <= 2 * (roundm(m, ds) - m) <= U(ds)
{ lemma_U(ds); let u = U(ds); let a = m + u / 2; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, u); vstd::arithmetic::div_mod::lemma_mod_bound(a, u); assert(u * (a / u) == (a / u) * u) by (nonlinear_arith); }
pub proof fn lemma_round_dvd(m: int, ds: int) requires -99000 <= ds <= 200000 ensures dvd(U(ds), roundm(m, ds)), roundm(0, ds) == 0
{ lemma_U(ds); let u = U(ds); lemma_round_zero(ds); lemma_dvd_mul(u, (m + u / 2) / u); }
// one row of the product when the digits beyond the last cell are left out
pub proof fn lemma_mul_row(s2: Seq<i16>, n2: int, m: int, c: int, cc: int, kk: int, f: int) -> (tail: int)
    requires digs(s2), s2.len() == n2, 1 <= m <= n2, c >= 0, cc >= 0, kk >= 0, 0 <= f <= 9999, m == n2 ==> c == cc + kk, m < n2 ==> cc == 0 && n2 - m + c == kk
    ensures f * val(s2, n2 - 1) * p(c) == (f * val(s2, m - 1)) * p(cc) * p(kk) + tail, 0 <= tail < 10000 * p(kk), m == n2 ==> tail == 0
{
    lemma_ppos(kk); lemma_ppos(c); let x = val(s2, m - 1); let v2 = val(s2, n2 - 1);
    if m == n2 { lemma_padd(cc, kk); let a = p(cc); let b = p(kk); assert((f * x) * (a * b) == (f * x) * a * b) by (nonlinear_arith); 0 }
    else {
        lemma_val_cut(s2, n2 - 1, m); lemma_lo_bounds(s2, n2 - 1, n2 - m); lemma_padd(n2 - m, c); lemma_p0(); let l = lo(s2, n2 - 1, n2 - m); let a = p(n2 - m); let b = p(c); let q = p(kk);
        assert(f * (x * a + l) * b == (f * x) * 1 * (a * b) + f * (l * b)) by (nonlinear_arith);
        assert(0 <= l * b < q) by (nonlinear_arith) requires 0 <= l < a, b >= 1, q == a * b;
        assert(0 <= f * (l * b) < 10000 * q) by (nonlinear_arith) requires 0 <= f <= 9999, 0 <= l * b < q;
        f * (l * b)
    }
}
pub proof fn lemma_mul_nocarry(x: int, pk: int, err: int, total: int, m: int, n: int, k: int) requires k >= 0, n >= 0, m >= 0, pk == p(k), err >= 0, x * pk + err == total, total < p(m), m + 1 == n + k ensures x < p(n)
{
    lemma_ppos(k); if n >= 1 { lemma_padd(n - 1, k); lemma_pS(n); let a = p(n - 1); if x >= a { assert(x * pk >= a * pk) by (nonlinear_arith) requires x >= a, pk >= 1; } }
    else { lemma_pS(k); lemma_p0(); if x >= 1 { assert(x * pk >= pk) by (nonlinear_arith) requires x >= 1, pk >= 1; } }
}
// how close a product computed to rs digits is to the exact one: half a unit plus what the guard digits lose
pub open spec fn mul_near(x: int, y: int, r: int, rs: int, n: int) -> bool {
    let d = r * p(KK) - x * y; let u = U(rs) * p(KK); 2 * d <= u && 20000 * d >= -((10002 + 2 * n) * u)
}
pub proof fn lemma_mul_near_sym(x: int, y: int, r: int, rs: int, n: int) requires mul_near(x, y, r, rs, n) ensures mul_near(y, x, r, rs, n) { assert(x * y == y * x) by (nonlinear_arith); }
pub proof fn lemma_mul_near(s1: Seq<i16>, w1: int, s2: Seq<i16>, w2: int, r: Seq<i16>, kk: int, err: int, rs: int)
    requires digs(s1), digs(s2), digs(r), s1.len() >= 1, s2.len() >= 1, -45000 <= w1 <= 45000, -45000 <= w2 <= 45000, s1.len() - 1 - w1 <= 99000, s2.len() - 1 - w2 <= 99000, s1.len() + s2.len() - 2 - w1 - w2 <= 90000, 0 <= rs <= 99000, kk >= 0,
        r.len() == s1.len() + s2.len() + 1 - kk, r.len() >= 1, val(r, r.len() - 1) * p(kk) + err == val(s1, s1.len() - 1) * val(s2, s2.len() - 1), kk == 0 ==> err == 0,
        0 <= err <= 10000 * p(kk) * (s1.len() + 1), kk > 0 ==> r.len() == w1 + w2 + 3 + (rs + 3) / 4 + 2
    ensures mul_near(V(s1, w1), V(s2, w2), roundm(V(r, w1 + w2 + 2), rs), rs, s1.len() as int)
{
    let n1 = s1.len() as int; let n2 = s2.len() as int; let n = r.len() as int; let e1 = w1 + KK + 1 - n1; let e2 = w2 + KK + 1 - n2; let e = w1 + w2 + KK + 3 - n;
    lemma_val_shift(s1, n1 - 1, e1); lemma_val_shift(s2, n2 - 1, e2); lemma_val_shift(r, n - 1, e); lemma_padd(e1, e2); lemma_padd(e, KK); lemma_padd(kk, e1 + e2); assert(kk + e1 + e2 == e + KK);
    let x = val(s1, n1 - 1); let y = val(s2, n2 - 1); let f = val(r, n - 1); let p1 = p(e1); let p2 = p(e2); let pk = p(kk); let pe = p(e); let pp = p(KK); let q = p(e1 + e2); lemma_ppos(KK); lemma_ppos(e1 + e2); lemma_ppos(e); lemma_ppos(kk);
    let xy = V(s1, w1) * V(s2, w2); let v = V(r, w1 + w2 + 2);
    assert(xy == (x * y) * q) by (nonlinear_arith) requires xy == (x * p1) * (y * p2), q == p1 * p2;
    assert(v * pp == (f * pk) * q) by (nonlinear_arith) requires v == f * pe, pe * pp == pk * q;
    assert((f * pk + err) * q == (f * pk) * q + err * q) by (nonlinear_arith);
    let d0 = err * q; assert(v * pp == xy - d0); let u = U(rs); lemma_U(rs); let up = u * pp;
    assert(up >= 0) by (nonlinear_arith) requires up == u * pp, u >= 0, pp >= 0;
    assert(d0 >= 0) by (nonlinear_arith) requires d0 == err * q, err >= 0, q >= 0;
    if kk == 0 { assert(0 * q == 0); assert(20000 * d0 <= 2 * (n1 + 1) * up) by (nonlinear_arith) requires d0 == 0, up >= 0, n1 >= 0; }
    else {
        let ce = (rs + 3) / 4; assert(e == KK - ce - 2);
        lemma_pt(e); lemma_tmono(4 * e + 8, 4 * KK - rs); lemma_tadd(4 * e, 8); reveal_with_fuel(t, 9); assert(pe * 100000000 <= u);
        assert(d0 <= (10000 * (n1 + 1)) * (pe * pp)) by (nonlinear_arith) requires d0 == err * q, err <= 10000 * pk * (n1 + 1), q >= 0, pe * pp == pk * q;
        assert((pe * 100000000) * pp <= u * pp) by (nonlinear_arith) requires pe * 100000000 <= u, pp >= 0;
        assert((pe * 100000000) * pp == 100000000 * (pe * pp)) by (nonlinear_arith);
        let g = pe * pp; assert(10000 * ((10000 * (n1 + 1)) * g) <= (n1 + 1) * up) by (nonlinear_arith) requires 100000000 * g <= up, n1 >= 0;
        assert(2 * ((n1 + 1) * up) == 2 * (n1 + 1) * up) by (nonlinear_arith);
    }
    let rr = roundm(v, rs); lemma_round_near(v, rs);
    assert(-up <= 2 * (rr * pp - v * pp) <= up) by (nonlinear_arith) requires -u <= 2 * (rr - v) <= u, pp >= 0, up == u * pp;
    assert((10002 + 2 * n1) * up == 10000 * up + 2 * (n1 + 1) * up) by (nonlinear_arith);
}
pub proof fn lemma_mul_small(s1: Seq<i16>, w1: int, s2: Seq<i16>, w2: int, rs: int, n: int)
    requires digs(s1), digs(s2), -45000 <= w1 <= 45000, -45000 <= w2 <= 45000, 0 <= rs <= 99000, n >= 0, s1.len() == 0 || s2.len() == 0 || w1 + w2 + 3 + (rs + 3) / 4 + 2 < 3
    ensures mul_near(V(s1, w1), V(s2, w2), 0, rs, n)
{
    let a = V(s1, w1); let b = V(s2, w2); let pp = p(KK); lemma_val_bounds(s1, w1 + KK); lemma_val_bounds(s2, w2 + KK); lemma_ppos(KK); lemma_U(rs); let u = U(rs); let up = u * pp;
    assert(up >= 0) by (nonlinear_arith) requires up == u * pp, u >= 0, pp >= 0; assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; assert(0 * pp == 0);
    if s1.len() == 0 { lemma_val_empty(s1, w1 + KK); assert(0 * b == 0); assert((10002 + 2 * n) * up >= 0) by (nonlinear_arith) requires n >= 0, up >= 0; }
    else if s2.len() == 0 { lemma_val_empty(s2, w2 + KK); assert(a * 0 == 0); assert((10002 + 2 * n) * up >= 0) by (nonlinear_arith) requires n >= 0, up >= 0; }
    else {
        let x = p(w1 + KK + 1); let y = p(w2 + KK + 1); lemma_padd(w1 + KK + 1, w2 + KK + 1); let e = w1 + w2 + 2 + KK; lemma_padd(e, KK); lemma_ppos(e);
        assert(a * b <= x * y) by (nonlinear_arith) requires 0 <= a < x, 0 <= b < y;
        lemma_pt(e); lemma_tmono(4 * e + 4, 4 * KK - rs); lemma_tadd(4 * e, 4); reveal_with_fuel(t, 5); let pe = p(e); assert(pe * 10000 <= u);
        assert((pe * 10000) * pp <= u * pp) by (nonlinear_arith) requires pe * 10000 <= u, pp >= 0; assert((pe * 10000) * pp == 10000 * (pe * pp)) by (nonlinear_arith);
        assert((10002 + 2 * n) * up >= 2 * up) by (nonlinear_arith) requires n >= 0, up >= 0;
    }
}
// the exact product is on the scale sum
pub proof fn lemma_mul_scale(a: NView, b: NView) requires a.can(), b.can(), !a.nan, !b.nan
    ensures mul_exact(a.mag(), b.mag()), dvd(U(a.dscale + b.dscale), mulm(a.mag(), b.mag())), dvd(U(a.dscale + b.dscale), -mulm(a.mag(), b.mag())), mulm(a.mag(), b.mag()) >= 0,
        roundm(mulm(a.mag(), b.mag()), a.dscale + b.dscale) == mulm(a.mag(), b.mag()), a.mag() == 0 || b.mag() == 0 ==> mulm(a.mag(), b.mag()) == 0
{
    let x = a.mag(); let y = b.mag(); let da = a.dscale; let db = b.dscale; let ds = da + db; let u = p(KK);
    lemma_can_facts(a); lemma_can_facts(b); lemma_U(da); lemma_U(db); lemma_U(ds); lemma_ppos(KK); lemma_pt(KK);
    lemma_dvd_i(U(da), x); lemma_dvd_i(U(db), y); let i = x / U(da); let j = y / U(db); let ua = U(da); let ub = U(db);
    lemma_tadd(4 * KK - da, 4 * KK - db); lemma_tadd(4 * KK - ds, 4 * KK); let us = U(ds);
    assert(ua * ub == us * u);
    assert((i * ua) * (j * ub) == (i * j) * (ua * ub)) by (nonlinear_arith);
    assert((i * j) * (us * u) == ((i * j) * us) * u) by (nonlinear_arith);
    lemma_dvd_mul(u, (i * j) * us); lemma_dvd_mul(us, i * j);
    let m = mulm(x, y); assert(m == (i * j) * us);
    lemma_dvd_neg(us, m);
    assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0; assert(m >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x * y, u); }
    lemma_round_exact(m, ds);
    if x == 0 { assert(0 * y == 0); lemma_div_unique(0, u, 0, 0); } if y == 0 { assert(x * 0 == 0); lemma_div_unique(0, u, 0, 0); } assert(0 * u == 0);
}
// ---- integers
pub proof fn lemma_p10() ensures p(1) == 10000, p(2) == 100000000, p(3) == 1000000000000, p(5) == 100000000000000000000, p(10) == 10000000000000000000000000000000000000000 { reveal_with_fuel(p, 12); }
pub proof fn lemma_lo_nonneg(s: Seq<i16>, top: int, k: int) requires forall|j: int| top - k < j <= top && 0 <= j < s.len() ==> 0 <= #[trigger] s[j] ensures lo(s, top, k) >= 0 decreases k
{ reveal(lo); if k > 0 { lemma_lo_nonneg(s, top, k - 1); lemma_ppos(k - 1); let a = at(s, top - (k - 1)); let q = p(k - 1); assert(a >= 0); assert(a * q >= 0) by (nonlinear_arith) requires a >= 0, q >= 1; } }
pub proof fn lemma_fits_big(i: int) requires 0 <= i < p(10) ensures fits(i * p(KK), 0), i * p(KK) >= 0
{
    lemma_ppos(KK); lemma_padd(10, KK); lemma_pmono(10 + KK, KK + 32768); lemma_pmono(KK - 32767, KK); let u = p(KK); let z = p(10);
    assert(i * u < z * u) by (nonlinear_arith) requires i < z, u >= 1; assert(i * u >= 0) by (nonlinear_arith) requires i >= 0, u >= 1;
    if i >= 1 { assert(i * u >= u) by (nonlinear_arith) requires i >= 1, u >= 1; } else { assert(i * u == 0) by (nonlinear_arith) requires i == 0; }
}
pub proof fn lemma_iabs_mul(i: int) ensures iabs(i * p(KK)) == iabs(i) * p(KK), iabs(i) < p(10) || iabs(i) >= p(10), -340282366920938463463374607431768211455 <= i <= 340282366920938463463374607431768211455 ==> iabs(i) < p(10)
{ let u = p(KK); lemma_ppos(KK); lemma_p10(); assert((-i) * u == -(i * u)) by (nonlinear_arith); if i >= 0 { assert(i * u >= 0) by (nonlinear_arith) requires i >= 0, u >= 1; } else { assert(i * u <= 0) by (nonlinear_arith) requires i <= 0, u >= 1; } }
// an integer value: no fractional digit is stored
pub proof fn lemma_int_digits(s: Seq<i16>, w: int) requires digs(s), s.len() > 0, s[0] != 0, s.last() != 0, dvd(U(0), V(s, w)), -99000 <= w <= 99000, s.len() - 1 - w <= 99000
    ensures s.len() <= w + 1, w >= 0, V(s, w) == val(s, w) * p(KK), val(s, w) >= 1
{ lemma_last_digit(s, w, 0); lemma_val_shift(s, w, KK); lemma_val_first(s, w); lemma_ppos(w); }
pub proof fn lemma_val_step(s: Seq<i16>, i: int) requires i >= 0 ensures val(s, i) == 10000 * val(s, i - 1) + at(s, i)
{ lemma_val_cut(s, i, i); lemma_p0(); lemma_loS(s, i, 0); lemma_lo0(s, i, 0); assert(at(s, i) * 1 == at(s, i)); }
pub proof fn lemma_val_empty0(s: Seq<i16>) ensures val(s, -1) == 0 { lemma_lo0(s, -1, 0); }
pub proof fn lemma_val_prefix(s: Seq<i16>, i: int, w: int) requires digs(s), 0 <= i <= w ensures val(s, w) >= val(s, i), val(s, i) >= 0, val(s, i - 1) >= 0, val(s, i) >= 10000 * val(s, i - 1) decreases w - i
{ lemma_val_step(s, w); lemma_val_bounds(s, i); lemma_val_bounds(s, i - 1); lemma_val_step(s, i); lemma_val_bounds(s, w); if i < w { lemma_val_prefix(s, i, w - 1); lemma_val_bounds(s, w - 1); } }
