// ---------------------------------------------------------------- mathematics (ghost only)
// A digit sequence s whose index `top` stands at the unit position denotes  sum_i s[i] * 10000^(top-i).
// A numeric with first digit of weight w denotes  V(s,w) = value * 10000^KK, an exact integer.
pub spec const KK: int = 100000;

#[verifier::opaque]
pub open spec fn p(k: int) -> int decreases k { if k <= 0 { 1 } else { 10000 * p(k - 1) } }
#[verifier::opaque]
pub open spec fn t(k: int) -> int decreases k { if k <= 0 { 1 } else { 10 * t(k - 1) } }
pub open spec fn at(s: Seq<i16>, i: int) -> int { if 0 <= i < s.len() { s[i] as int } else { 0 } }
#[verifier::opaque]
pub open spec fn lo(s: Seq<i16>, top: int, k: int) -> int decreases k
{ if k <= 0 { 0 } else { lo(s, top, k - 1) + at(s, top - (k - 1)) * p(k - 1) } }
pub open spec fn val(s: Seq<i16>, top: int) -> int { lo(s, top, top + 1) }
pub open spec fn V(s: Seq<i16>, w: int) -> int { val(s, w + KK) }
pub open spec fn digs(s: Seq<i16>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < 10000 }
// magnitude unit of decimal scale ds: 10^-ds
pub open spec fn U(ds: int) -> int { t(4 * KK - ds) }
pub open spec fn roundm(m: int, ds: int) -> int { ((m + U(ds) / 2) / U(ds)) * U(ds) }
pub open spec fn truncm(m: int, ds: int) -> int { (m / U(ds)) * U(ds) }

pub proof fn lemma_p0() ensures p(0) == 1, p(1) == 10000, p(2) == 100000000 { reveal_with_fuel(p, 4); }
pub proof fn lemma_t0() ensures t(0) == 1, t(1) == 10, t(2) == 100, t(3) == 1000, t(4) == 10000 { reveal_with_fuel(t, 6); }
pub proof fn lemma_pS(k: int) requires k >= 1 ensures p(k) == 10000 * p(k - 1), p(k - 1) > 0 { reveal(p); lemma_ppos(k - 1); }
pub proof fn lemma_ppos(k: int) ensures p(k) >= 1 decreases k { reveal(p); if k > 0 { lemma_ppos(k - 1); } }
pub proof fn lemma_tpos(k: int) ensures t(k) >= 1 decreases k { reveal(t); if k > 0 { lemma_tpos(k - 1); } }
pub proof fn lemma_tS(k: int) requires k >= 1 ensures t(k) == 10 * t(k - 1), t(k - 1) > 0 { reveal(t); lemma_tpos(k - 1); }
pub proof fn lemma_padd(a: int, b: int) requires a >= 0, b >= 0 ensures p(a + b) == p(a) * p(b) decreases a
{
    reveal(p);
    if a > 0 { lemma_padd(a - 1, b); assert(10000 * (p(a - 1) * p(b)) == (10000 * p(a - 1)) * p(b)) by (nonlinear_arith); assert(p(a + b) == 10000 * p(a + b - 1)); }
}
pub proof fn lemma_tadd(a: int, b: int) requires a >= 0, b >= 0 ensures t(a + b) == t(a) * t(b) decreases a
{
    reveal(t);
    if a > 0 { lemma_tadd(a - 1, b); assert(10 * (t(a - 1) * t(b)) == (10 * t(a - 1)) * t(b)) by (nonlinear_arith); assert(t(a + b) == 10 * t(a + b - 1)); }
}
pub proof fn lemma_pt(k: int) requires k >= 0 ensures p(k) == t(4 * k) decreases k
{
    if k == 0 { reveal(p); reveal(t); } else {
        lemma_pt(k - 1); lemma_pS(k); lemma_tS(4 * k); lemma_tS(4 * k - 1); lemma_tS(4 * k - 2); lemma_tS(4 * k - 3);
        assert(4 * k - 4 == 4 * (k - 1));
    }
}
pub proof fn lemma_pmono(a: int, b: int) requires 0 <= a <= b ensures p(a) <= p(b) {
    lemma_padd(a, b - a); lemma_ppos(a); lemma_ppos(b - a);
    assert(p(a) * p(b - a) >= p(a)) by (nonlinear_arith) requires p(a) >= 1, p(b - a) >= 1;
}
pub proof fn lemma_tmono(a: int, b: int) requires 0 <= a <= b ensures t(a) <= t(b) {
    lemma_tadd(a, b - a); lemma_tpos(a); lemma_tpos(b - a);
    assert(t(a) * t(b - a) >= t(a)) by (nonlinear_arith) requires t(a) >= 1, t(b - a) >= 1;
}

// ---- lo
pub proof fn lemma_lo0(s: Seq<i16>, top: int, k: int) requires k <= 0 ensures lo(s, top, k) == 0 { reveal(lo); }
pub proof fn lemma_loS(s: Seq<i16>, top: int, k: int) requires k >= 0
    ensures lo(s, top, k + 1) == lo(s, top, k) + at(s, top - k) * p(k) { reveal(lo); }
pub proof fn lemma_lo_bounds(s: Seq<i16>, top: int, k: int) requires digs(s), k >= 0 ensures 0 <= lo(s, top, k) < p(k) decreases k
{
    reveal(lo); reveal(p);
    if k > 0 {
        lemma_lo_bounds(s, top, k - 1); lemma_ppos(k - 1);
        let a = at(s, top - (k - 1)); let q = p(k - 1);
        assert(0 <= a <= 9999);
        assert(0 <= a * q <= 9999 * q) by (nonlinear_arith) requires 0 <= a <= 9999, q >= 1;
    }
}
pub proof fn lemma_lo_congr(s: Seq<i16>, top: int, s2: Seq<i16>, top2: int, k: int)
    requires forall|j: int| 0 <= j < k ==> at(s, top - j) == #[trigger] at(s2, top2 - j)
    ensures lo(s, top, k) == lo(s2, top2, k) decreases k
{ reveal(lo); if k > 0 { lemma_lo_congr(s, top, s2, top2, k - 1); assert(at(s, top - (k - 1)) == at(s2, top2 - (k - 1))); } }
pub proof fn lemma_lo_split(s: Seq<i16>, top: int, k: int, m: int) requires k >= 0, m >= 0
    ensures lo(s, top, k + m) == lo(s, top, k) + lo(s, top - k, m) * p(k) decreases m
{
    if m == 0 { lemma_lo0(s, top - k, 0); assert(0int * p(k) == 0); } else {
        lemma_lo_split(s, top, k, m - 1);
        lemma_loS(s, top, k + m - 1); lemma_loS(s, top - k, m - 1); lemma_padd(k, m - 1);
        let a = at(s, top - k - (m - 1)); let x = lo(s, top - k, m - 1);
        assert(top - (k + m - 1) == top - k - (m - 1));
        assert((x + a * p(m - 1)) * p(k) == x * p(k) + a * (p(k) * p(m - 1))) by (nonlinear_arith);
    }
}
pub proof fn lemma_lo_zero(s: Seq<i16>, top: int, k: int) requires forall|j: int| 0 <= j < k ==> #[trigger] at(s, top - j) == 0
    ensures lo(s, top, k) == 0 decreases k
{ reveal(lo); if k > 0 { lemma_lo_zero(s, top, k - 1); assert(at(s, top - (k - 1)) == 0); assert(0 * p(k - 1) == 0); } }
// digits all below position: index range [top-k+1 .. top] outside the sequence on the right
pub proof fn lemma_lo_right(s: Seq<i16>, top: int, k: int) requires top - k + 1 >= s.len() ensures lo(s, top, k) == 0
{ lemma_lo_zero(s, top, k); }
// beyond the top digit nothing is added
pub proof fn lemma_lo_top(s: Seq<i16>, top: int, k: int) requires top >= -1, k >= top + 1 ensures lo(s, top, k) == val(s, top) decreases k
{ if k > top + 1 { lemma_lo_top(s, top, k - 1); lemma_loS(s, top, k - 1); assert(at(s, top - (k - 1)) == 0); assert(0 * p(k - 1) == 0); } }
// appending implicit zeros: val(s, top+m) = val(s,top) * p(m)
pub proof fn lemma_val_shift(s: Seq<i16>, top: int, m: int) requires s.len() <= top + 1, m >= 0, top >= -1 ensures val(s, top + m) == val(s, top) * p(m)
{ lemma_lo_split(s, top + m, m, top + 1); lemma_lo_right(s, top + m, m); }
// val decomposes at a cut: first c digits and the rest
pub proof fn lemma_val_cut(s: Seq<i16>, top: int, c: int) requires 0 <= c <= top + 1
    ensures val(s, top) == val(s, c - 1) * p(top + 1 - c) + lo(s, top, top + 1 - c)
{ lemma_lo_split(s, top, top + 1 - c, c); }
pub proof fn lemma_val_congr(s: Seq<i16>, s2: Seq<i16>, top: int) requires forall|i: int| 0 <= i <= top ==> at(s, i) == #[trigger] at(s2, i) ensures val(s, top) == val(s2, top)
{ assert forall|j: int| 0 <= j < top + 1 implies at(s, top - j) == #[trigger] at(s2, top - j) by { let i = top - j; assert(at(s, i) == at(s2, i)); } lemma_lo_congr(s, top, s2, top, top + 1); }
pub proof fn lemma_val_bounds(s: Seq<i16>, top: int) requires digs(s), top >= -1 ensures 0 <= val(s, top) < p(top + 1) { lemma_lo_bounds(s, top, top + 1); }
pub proof fn lemma_val_first(s: Seq<i16>, top: int) requires digs(s), s.len() > 0, s[0] > 0, top >= 0 ensures val(s, top) >= p(top), val(s, top) >= s[0] * p(top), val(s, top) < (s[0] + 1) * p(top)
{ lemma_loS(s, top, top); lemma_lo_bounds(s, top, top); lemma_ppos(top); assert(at(s, 0) == s[0]);
  assert(s[0] * p(top) >= p(top)) by (nonlinear_arith) requires s[0] >= 1, p(top) >= 1;
  assert((s[0] + 1) * p(top) == s[0] * p(top) + p(top)) by (nonlinear_arith); }
pub proof fn lemma_val_empty(s: Seq<i16>, top: int) requires s.len() == 0 ensures val(s, top) == 0 { lemma_lo_right(s, top, top + 1); if top < -1 { lemma_lo0(s, top, top + 1); } else if top + 1 > 0 { lemma_lo_zero(s, top, top + 1); } }
// one digit changes
pub proof fn lemma_lo_upd(s: Seq<i16>, i: int, x: i16, top: int, k: int) requires 0 <= i < s.len(), top - k < i <= top, k >= 0
    ensures lo(s.update(i, x), top, k) == lo(s, top, k) + (x - s[i]) * p(top - i) decreases k
{
    let s2 = s.update(i, x);
    lemma_loS(s, top, k - 1); lemma_loS(s2, top, k - 1);
    if top - (k - 1) == i {
        assert forall|j: int| 0 <= j < k - 1 implies at(s, top - j) == #[trigger] at(s2, top - j) by {}
        lemma_lo_congr(s, top, s2, top, k - 1);
        assert((x - s[i]) * p(k - 1) == x * p(k - 1) - s[i] * p(k - 1)) by (nonlinear_arith);
    } else { lemma_lo_upd(s, i, x, top, k - 1); assert(at(s, top - (k - 1)) == at(s2, top - (k - 1))); }
}
pub proof fn lemma_lo_upd_out(s: Seq<i16>, i: int, x: i16, top: int, k: int) requires 0 <= i < s.len(), i <= top - k || i > top
    ensures lo(s.update(i, x), top, k) == lo(s, top, k)
{ let s2 = s.update(i, x); assert forall|j: int| 0 <= j < k implies at(s, top - j) == #[trigger] at(s2, top - j) by {} lemma_lo_congr(s, top, s2, top, k); }

// ---- units
pub proof fn lemma_U(ds: int) requires ds < 4 * KK ensures U(ds) >= 1, U(ds) % 2 == 0, U(ds) == 2 * (U(ds) / 2), U(ds) == 10 * t(4 * KK - ds - 1)
{ lemma_tS(4 * KK - ds); lemma_even(U(ds), t(4 * KK - ds - 1)); }
pub proof fn lemma_even(u: int, w: int) requires u == 10 * w ensures u % 2 == 0, u == 2 * (u / 2) { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(u, 2, 5 * w, 0); }
// multiples
pub open spec fn dvd(d: int, n: int) -> bool { d != 0 && n % d == 0 }
pub proof fn lemma_dvd_i(d: int, n: int) requires dvd(d, n) ensures n == (n / d) * d { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d); assert(d * (n / d) == (n / d) * d) by (nonlinear_arith); }
pub proof fn lemma_dvd_mul(d: int, q: int) requires d > 0 ensures dvd(d, q * d), (q * d) / d == q { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q * d, d, q, 0); }
pub proof fn lemma_dvd_add(d: int, a: int, b: int) requires d > 0, dvd(d, a), dvd(d, b) ensures dvd(d, a + b), dvd(d, a - b)
{ lemma_dvd_i(d, a); lemma_dvd_i(d, b); let x = a / d; let y = b / d;
  assert((x + y) * d == x * d + y * d) by (nonlinear_arith); assert((x - y) * d == x * d - y * d) by (nonlinear_arith);
  lemma_dvd_mul(d, x + y); lemma_dvd_mul(d, x - y); }
pub proof fn lemma_dvd_scale(d: int, k: int, a: int) requires d > 0, k > 0, dvd(d, a) ensures dvd(d * k, a * k), d * k > 0
{ lemma_dvd_i(d, a); let x = a / d; assert((x * d) * k == x * (d * k)) by (nonlinear_arith); assert(d * k > 0) by (nonlinear_arith) requires d > 0, k > 0; lemma_dvd_mul(d * k, x); }
pub proof fn lemma_dvd_prod(d: int, a: int, b: int) requires dvd(d, a), d > 0 ensures dvd(d, a * b), dvd(d, b * a)
{ lemma_dvd_i(d, a); let x = a / d; assert((x * d) * b == (x * b) * d) by (nonlinear_arith); lemma_dvd_mul(d, x * b); assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn lemma_dvd_trans(d: int, e: int, a: int) requires dvd(d, e), dvd(e, a), d > 0, e > 0 ensures dvd(d, a)
{ lemma_dvd_i(e, a); lemma_dvd_prod(d, e, a / e); }
pub proof fn lemma_t_dvd(a: int, b: int) requires 0 <= a <= b ensures dvd(t(a), t(b)) { lemma_tadd(a, b - a); lemma_tpos(a); lemma_dvd_mul(t(a), t(b - a)); assert(t(a) * t(b - a) == t(b - a) * t(a)) by (nonlinear_arith); }
pub proof fn lemma_U_dvd(a: int, b: int) requires a <= b, b <= 4 * KK ensures dvd(U(b), U(a)), U(b) > 0, U(a) > 0 { lemma_t_dvd(4 * KK - b, 4 * KK - a); lemma_tpos(4 * KK - b); lemma_tpos(4 * KK - a); }
// a multiple of the unit at scale a is a multiple of the unit at any larger scale
pub proof fn lemma_scale_up(m: int, a: int, b: int) requires dvd(U(a), m), a <= b, b <= 4 * KK ensures dvd(U(b), m) { lemma_U_dvd(a, b); lemma_dvd_trans(U(b), U(a), m); }
pub proof fn lemma_div_unique(n: int, d: int, q: int, r: int) requires d > 0, n == q * d + r, 0 <= r < d ensures n / d == q, n % d == r
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, d, q, r); }
// exact multiples are fixed points of rounding and truncation
pub proof fn lemma_round_exact(m: int, ds: int) requires ds < 4 * KK, dvd(U(ds), m), m >= 0 ensures roundm(m, ds) == m, truncm(m, ds) == m
{ lemma_U(ds); lemma_dvd_i(U(ds), m); let u = U(ds); let q = m / u; lemma_div_unique(m + u / 2, u, q, u / 2); }
pub proof fn lemma_round_by(m: int, ds: int, a: int, rest: int) requires ds < 4 * KK, m == a * U(ds) + rest, 0 <= rest < U(ds)
    ensures rest < U(ds) / 2 ==> roundm(m, ds) == a * U(ds), rest >= U(ds) / 2 ==> roundm(m, ds) == (a + 1) * U(ds), truncm(m, ds) == a * U(ds)
{
    let u = U(ds); lemma_U(ds); lemma_div_unique(m, u, a, rest);
    if rest < u / 2 { lemma_div_unique(m + u / 2, u, a, rest + u / 2); }
    else { assert((a + 1) * u == a * u + u) by (nonlinear_arith); lemma_div_unique(m + u / 2, u, a + 1, rest + u / 2 - u); }
}
// if V(s,w) <= m < 10000^(w2+KK+1), the digits above position w2 are zero
pub proof fn lemma_sub_top(s: Seq<i16>, w: int, w2: int, m: int) requires digs(s), w >= -KK, w2 >= -KK, V(s, w) <= m < p(w2 + KK + 1) ensures lo(s, w + KK, w2 + KK + 1) == V(s, w)
{
    let k = w2 + KK + 1; let top = w + KK;
    if k >= top + 1 { lemma_lo_top(s, top, k); } else {
        lemma_lo_split(s, top, k, top + 1 - k); lemma_lo_bounds(s, top, k); lemma_lo_bounds(s, top - k, top + 1 - k); lemma_ppos(k);
        let h = lo(s, top - k, top + 1 - k); let q = p(k);
        if h >= 1 { assert(h * q >= q) by (nonlinear_arith) requires h >= 1, q >= 1; }
        assert(0 * q == 0);
    }
}
pub proof fn lemma_val_zero(s: Seq<i16>, top: int, i: int) requires digs(s), val(s, top) == 0, 0 <= i <= top ensures at(s, i) == 0
{
    let k = top - i;
    lemma_lo_split(s, top, k + 1, i); lemma_loS(s, top, k); lemma_lo_bounds(s, top, k); lemma_lo_bounds(s, top - k - 1, i); lemma_ppos(k); lemma_ppos(k + 1);
    let a = at(s, i); let q = p(k); let h = lo(s, top - k - 1, i); let q1 = p(k + 1);
    assert(h * q1 >= 0) by (nonlinear_arith) requires h >= 0, q1 >= 1;
    if a >= 1 { assert(a * q >= q) by (nonlinear_arith) requires a >= 1, q >= 1; }
}
pub open spec fn sgn(x: int) -> int { if x > 0 { 1 } else if x < 0 { -1 } else { 0 } }
// digit at position q of the number with first digit of weight w
pub open spec fn dg(s: Seq<i16>, w: int, q: int) -> int { at(s, w - q) }
// V split at position q: the digits above q, the digit at q, and the rest
pub proof fn lemma_V_at(s: Seq<i16>, w: int, q: int, top: int) requires digs(s), w >= -KK - 1, q >= -KK, top >= q, top >= w
    ensures V(s, w) == lo(s, w + KK, q + KK) + dg(s, w, q) * p(q + KK) + lo(s, w - q - 1, top - q) * p(q + KK + 1), 0 <= lo(s, w + KK, q + KK) < p(q + KK)
{
    let k = q + KK;
    lemma_lo_top(s, w + KK, top + KK + 1);
    lemma_lo_split(s, w + KK, k + 1, top - q); lemma_loS(s, w + KK, k); lemma_lo_bounds(s, w + KK, k);
}
// equal digits above position q, larger digit at q: larger number
pub proof fn lemma_cmp_digit(sa: Seq<i16>, wa: int, sb: Seq<i16>, wb: int, q: int)
    requires digs(sa), digs(sb), wa >= -KK - 1, wb >= -KK - 1, q >= -KK, forall|j: int| j > q ==> dg(sa, wa, j) == dg(sb, wb, j), dg(sa, wa, q) > dg(sb, wb, q)
    ensures V(sa, wa) > V(sb, wb)
{
    let top = if wa >= wb { if wa >= q { wa } else { q } } else { if wb >= q { wb } else { q } };
    lemma_V_at(sa, wa, q, top); lemma_V_at(sb, wb, q, top);
    assert forall|j: int| 0 <= j < top - q implies at(sa, wa - q - 1 - j) == #[trigger] at(sb, wb - q - 1 - j) by { let x = q + 1 + j; assert(dg(sa, wa, x) == dg(sb, wb, x)); }
    lemma_lo_congr(sa, wa - q - 1, sb, wb - q - 1, top - q);
    let x = dg(sa, wa, q); let y = dg(sb, wb, q); let u = p(q + KK);
    assert(x * u >= y * u + u) by (nonlinear_arith) requires x >= y + 1, u >= 0;
}
// as above where the second number has run out of digits above q
pub proof fn lemma_cmp_digit0(sa: Seq<i16>, wa: int, sb: Seq<i16>, wb: int, q: int)
    requires digs(sa), digs(sb), wa >= -KK - 1, wb >= -KK - 1, q >= -KK, forall|j: int| j > q ==> dg(sa, wa, j) == dg(sb, wb, j), dg(sa, wa, q) > 0, dg(sb, wb, q) == 0
    ensures V(sa, wa) > V(sb, wb)
{ lemma_cmp_digit(sa, wa, sb, wb, q); }
pub proof fn lemma_V_congr(sa: Seq<i16>, wa: int, sb: Seq<i16>, wb: int)
    requires wa >= -KK - 1, wb >= -KK - 1, forall|q: int| dg(sa, wa, q) == dg(sb, wb, q) ensures V(sa, wa) == V(sb, wb)
{
    let top = if wa >= wb { wa } else { wb };
    lemma_lo_top(sa, wa + KK, top + KK + 1); lemma_lo_top(sb, wb + KK, top + KK + 1);
    assert forall|j: int| 0 <= j < top + KK + 1 implies at(sa, wa + KK - j) == #[trigger] at(sb, wb + KK - j) by { let x = j - KK; assert(dg(sa, wa, x) == dg(sb, wb, x)); }
    lemma_lo_congr(sa, wa + KK, sb, wb + KK, top + KK + 1);
}
// ---------------------------------------------------------------- the same over i32 accumulator cells
pub open spec fn at32(s: Seq<i32>, i: int) -> int { if 0 <= i < s.len() { s[i] as int } else { 0 } }
#[verifier::opaque]
pub open spec fn lo32(s: Seq<i32>, top: int, k: int) -> int decreases k
{ if k <= 0 { 0 } else { lo32(s, top, k - 1) + at32(s, top - (k - 1)) * p(k - 1) } }
pub proof fn lemma32_0(s: Seq<i32>, top: int, k: int) requires k <= 0 ensures lo32(s, top, k) == 0 { reveal(lo32); }
pub proof fn lemma32_S(s: Seq<i32>, top: int, k: int) requires k >= 0 ensures lo32(s, top, k + 1) == lo32(s, top, k) + at32(s, top - k) * p(k) { reveal(lo32); }
pub proof fn lemma32_congr(s: Seq<i32>, top: int, s2: Seq<i32>, top2: int, k: int) requires forall|j: int| 0 <= j < k ==> at32(s, top - j) == #[trigger] at32(s2, top2 - j)
    ensures lo32(s, top, k) == lo32(s2, top2, k) decreases k
{ reveal(lo32); if k > 0 { lemma32_congr(s, top, s2, top2, k - 1); assert(at32(s, top - (k - 1)) == at32(s2, top2 - (k - 1))); } }
pub proof fn lemma32_split(s: Seq<i32>, top: int, k: int, m: int) requires k >= 0, m >= 0 ensures lo32(s, top, k + m) == lo32(s, top, k) + lo32(s, top - k, m) * p(k) decreases m
{
    if m == 0 { lemma32_0(s, top - k, 0); assert(0int * p(k) == 0); } else {
        lemma32_split(s, top, k, m - 1); lemma32_S(s, top, k + m - 1); lemma32_S(s, top - k, m - 1); lemma_padd(k, m - 1);
        let a = at32(s, top - k - (m - 1)); let x = lo32(s, top - k, m - 1);
        assert(top - (k + m - 1) == top - k - (m - 1));
        assert((x + a * p(m - 1)) * p(k) == x * p(k) + a * (p(k) * p(m - 1))) by (nonlinear_arith);
    }
}
pub proof fn lemma32_zero(s: Seq<i32>, top: int, k: int) requires forall|j: int| 0 <= j < k ==> #[trigger] at32(s, top - j) == 0 ensures lo32(s, top, k) == 0 decreases k
{ reveal(lo32); if k > 0 { lemma32_zero(s, top, k - 1); assert(at32(s, top - (k - 1)) == 0); assert(0 * p(k - 1) == 0); } }
pub proof fn lemma32_nonneg(s: Seq<i32>, top: int, k: int) requires forall|j: int| 0 <= j < k ==> #[trigger] at32(s, top - j) >= 0 ensures lo32(s, top, k) >= 0 decreases k
{ reveal(lo32); if k > 0 { lemma32_nonneg(s, top, k - 1); assert(at32(s, top - (k - 1)) >= 0); lemma_ppos(k - 1); let a = at32(s, top - (k - 1)); let q = p(k - 1); assert(a * q >= 0) by (nonlinear_arith) requires a >= 0, q >= 1; } }
pub proof fn lemma32_bounds(s: Seq<i32>, top: int, k: int) requires k >= 0, forall|j: int| 0 <= j < k ==> 0 <= #[trigger] at32(s, top - j) <= 9999 ensures 0 <= lo32(s, top, k) < p(k) decreases k
{
    reveal(lo32); reveal(p);
    if k > 0 { assert(0 <= at32(s, top - (k - 1)) <= 9999); lemma32_bounds(s, top, k - 1); lemma_ppos(k - 1); let a = at32(s, top - (k - 1)); let q = p(k - 1); assert(0 <= a * q <= 9999 * q) by (nonlinear_arith) requires 0 <= a <= 9999, q >= 1; }
}
pub proof fn lemma32_upd(s: Seq<i32>, i: int, x: i32, top: int, k: int) requires 0 <= i < s.len(), top - k < i <= top, k >= 0
    ensures lo32(s.update(i, x), top, k) == lo32(s, top, k) + (x - s[i]) * p(top - i) decreases k
{
    let s2 = s.update(i, x);
    lemma32_S(s, top, k - 1); lemma32_S(s2, top, k - 1);
    if top - (k - 1) == i {
        assert forall|j: int| 0 <= j < k - 1 implies at32(s, top - j) == #[trigger] at32(s2, top - j) by {}
        lemma32_congr(s, top, s2, top, k - 1);
        assert((x - s[i]) * p(k - 1) == x * p(k - 1) - s[i] * p(k - 1)) by (nonlinear_arith);
    } else { lemma32_upd(s, i, x, top, k - 1); assert(at32(s, top - (k - 1)) == at32(s2, top - (k - 1))); }
}
pub proof fn lemma32_upd_out(s: Seq<i32>, i: int, x: i32, top: int, k: int) requires 0 <= i < s.len(), i <= top - k || i > top ensures lo32(s.update(i, x), top, k) == lo32(s, top, k)
{ let s2 = s.update(i, x); assert forall|j: int| 0 <= j < k implies at32(s, top - j) == #[trigger] at32(s2, top - j) by {} lemma32_congr(s, top, s2, top, k); }
// a digit string whose value is below p(k) has lo32 = value and zero carry out of position k:  lo(r, ..k) + c*p(k) == lo32(s, .., k) with total < p(k)
pub proof fn lemma_no_carry(r: int, c: int, k: int, total: int) requires r >= 0, c >= 0, r + c * p(k) == total, total < p(k) ensures c == 0
{ lemma_ppos(k); let q = p(k); if c >= 1 { assert(c * q >= q) by (nonlinear_arith) requires c >= 1, q >= 0; } }
