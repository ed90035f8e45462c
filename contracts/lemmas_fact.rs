// ---------------------------------------------------------------- factorials
pub open spec fn fact(n: int) -> int decreases n { if n <= 1 { 1 } else { n * fact(n - 1) } }
// a*(a+1)*..*(b-1) and 10^k by halving, for evaluation
pub open spec fn rp(a: int, b: int) -> int decreases b - a { if b <= a { 1 } else if b == a + 1 { a } else { rp(a, (a + b) / 2) * rp((a + b) / 2, b) } }
pub open spec fn tq(k: int) -> int decreases k { if k <= 0 { 1 } else if k % 2 == 0 { let h = tq(k / 2); h * h } else { 10 * tq(k - 1) } }
pub proof fn lemma_rp(a: int, b: int) requires 1 <= a <= b ensures rp(a, b) * fact(a - 1) == fact(b - 1) decreases b - a
{
    if b == a { assert(rp(a, b) == 1); assert(1 * fact(a - 1) == fact(a - 1)); }
    else if b == a + 1 { assert(rp(a, b) == a); if a == 1 { assert(fact(0) == 1 && fact(1) == 1); } else { assert(fact(a) == a * fact(a - 1)); } } else {
        assert(rp(a, b) == rp(a, (a + b) / 2) * rp((a + b) / 2, b));
        let m = (a + b) / 2; lemma_rp(a, m); lemma_rp(m, b); let (x, y, z) = (rp(a, m), rp(m, b), fact(a - 1));
        assert((x * y) * z == y * (x * z)) by (nonlinear_arith);
    }
}
pub proof fn lemma_tq(k: int) ensures tq(k) == t(k) decreases k
{
    reveal(t);
    if k > 0 { if k % 2 == 0 { lemma_tq(k / 2); lemma_tadd(k / 2, k / 2); } else { lemma_tq(k - 1); } }
}
// 32177! is the largest factorial below 10^131072
pub proof fn lemma_fact_limit() ensures fact(32177) < p(32768), fact(32178) >= p(32768)
{
    assert(rp(1, 32178) < tq(131072)) by (compute_only);
    assert(rp(1, 32179) >= tq(131072)) by (compute_only);
    let a = rp(1, 32178); let b = rp(1, 32179); lemma_rp(1, 32178); lemma_rp(1, 32179);
    assert(fact(1 - 1) == 1); assert(a * fact(1 - 1) == a); assert(b * fact(1 - 1) == b); lemma_tq(131072); lemma_pt(32768);
    assert(fact(32178 - 1) == a); assert(fact(32179 - 1) == b); assert(p(32768) == tq(131072));
}
pub proof fn lemma_fact_mono(a: int, b: int) requires 0 <= a <= b ensures 1 <= fact(a) <= fact(b) decreases b
{
    if a < b { lemma_fact_mono(a, b - 1); let f = fact(b - 1); if b >= 2 { assert(b * f >= f) by (nonlinear_arith) requires b >= 1, f >= 1; } }
    else if b >= 1 { lemma_fact_mono(b - 1, b - 1); let f = fact(b - 1); assert(b * f >= 1) by (nonlinear_arith) requires b >= 1, f >= 1; }
}
// one step of the product num * (num-1) * .. * n
pub proof fn lemma_fact_step(f: int, n: int, num: int) requires 2 <= n < num <= 32177, f >= 1, f * fact(n) == fact(num)
    ensures (f * n) * fact(n - 1) == fact(num), f * n >= 1, f * n <= fact(num), fact(num) < p(32768), mulm(f * p(KK), n * p(KK)) == (f * n) * p(KK), roundm((f * n) * p(KK), 0) == (f * n) * p(KK)
{
    let g = fact(n - 1); lemma_fact_mono(0, n - 1); lemma_fact_mono(num, 32177); lemma_fact_limit();
    assert(f * (n * g) == (f * n) * g) by (nonlinear_arith);
    assert(f * n >= 1) by (nonlinear_arith) requires f >= 1, n >= 2;
    let h = f * n; assert(h * g >= h) by (nonlinear_arith) requires h >= 1, g >= 1;
    lemma_fact_scale(f, n);
}
pub proof fn lemma_fact_scale(f: int, n: int) requires f >= 1, n >= 1
    ensures mulm(f * p(KK), n * p(KK)) == (f * n) * p(KK), roundm((f * n) * p(KK), 0) == (f * n) * p(KK)
{
    let q = p(KK); lemma_ppos(KK); let h = f * n;
    assert((f * q) * (n * q) == (h * q) * q) by (nonlinear_arith) requires h == f * n;
    lemma_dvd_mul(q, h * q); lemma_pt(KK); lemma_dvd_mul(q, h);
    assert(h * q >= 0) by (nonlinear_arith) requires h == f * n, f >= 1, n >= 1, q >= 1;
    lemma_round_exact(h * q, 0);
}
// sizes of an integer below 10000^32768 held in a normalised working form
pub proof fn lemma_weight_of(w: int, m: int) requires -KK <= w, p(w + KK) <= m * p(KK), m < p(32768) ensures w <= 32767
{
    if w >= 32768 { lemma_pmono(32768 + KK, w + KK); lemma_padd(32768, KK); lemma_ppos(KK); let q = p(KK); let x = p(32768); assert(m * q < x * q) by (nonlinear_arith) requires m < x, q >= 1; }
}
