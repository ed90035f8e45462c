// ---------------------------------------------------------------- div_fast_common: quotient digits estimated in floating point
// the first n cells from q on, as one number; beyond the end of the sequence cells are zero
pub open spec fn hd(s: Seq<i32>, q: int, n: int) -> int decreases n { if n <= 0 { 0 } else { hd(s, q, n - 1) * 10000 + at32(s, q + n - 1) } }
pub open spec fn hs(s: Seq<i16>, n: int) -> int decreases n { if n <= 0 { 0 } else { hs(s, n - 1) * 10000 + at(s, n - 1) } }
// allowed distance of the float from the first n cells
pub open spec fn fe(n: int) -> real { if n <= 1 { 0real } else if n == 2 { 1real / 1000real } else if n == 3 { 17real } else { 250000real } }
pub open spec fn fd(n: int) -> real { if n <= 1 { 0real } else if n == 2 { 1real / 30000000real } else if n == 3 { 1real / 1000real } else { 20real } }
pub open spec fn fnear(x: f64, v: int, e: real) -> bool { fin(x) && rabs(rv(x) - v as real) <= e }
pub open spec fn head_ok(h: int, d: int, q: int, n: int) -> bool {
    if q <= n - 2 { -20000 * d <= 1000000 * h <= 10000020000 * d } else if q == n - 1 { -20000 * d <= 1000000 * h <= 10002000000 * d } else { -2000000 * d <= 1000000 * h <= 21000000000 * d }
}
pub open spec fn q_ok(h: int, d: int, q: int) -> bool { -d <= 1000000 * (h - q * d) <= 1000001 * d }
pub open spec fn fqb(h: int, d: int) -> bool { 1000000000000 <= d < 10000000000000000 && -23000 * d <= h <= 23000 * d }
pub proof fn lemma_fstep1(x: real, y: real, z: real, v: int, c: int, n: int)
    requires 1 <= n <= 3, rabs(x - v as real) <= fe(n), near(y, x * 10000real), near(z, y + c as real) || (z == y && c == 0), -2147483648 <= c <= 2147483647,
        n == 1 ==> -300000000 <= v <= 300000000, n == 2 ==> -3100000000000 <= v <= 3100000000000, n == 3 ==> -31000000000000000 <= v <= 31000000000000000
    ensures rabs(z - (v * 10000 + c) as real) <= fe(n + 1), fsafe(y + c as real)
{ assert(x * 10000real == 10000real * x); }
pub proof fn lemma_fstep2(x: real, y: real, z: real, v: int, c: int, n: int)
    requires 1 <= n <= 3, rabs(x - v as real) <= fd(n), near(y, x * 10000real), near(z, y + c as real) || (z == y && c == 0), 0 <= c <= 9999,
        n == 1 ==> 0 <= v <= 9999, n == 2 ==> 0 <= v <= 99999999, n == 3 ==> 0 <= v <= 999999999999
    ensures rabs(z - (v * 10000 + c) as real) <= fd(n + 1)
{ assert(x * 10000real == 10000real * x); }
pub proof fn lemma_rmul(a: real, b: real, x: real) requires a <= b, x >= 0real ensures a * x <= b * x { assert(a * x <= b * x) by (nonlinear_arith) requires a <= b, x >= 0real; }
pub proof fn lemma_rabs_mul(a: real, x: real) ensures rabs(a * x) == rabs(a) * rabs(x)
{ assert(a >= 0real && x >= 0real ==> a * x >= 0real) by (nonlinear_arith); assert(a >= 0real && x <= 0real ==> a * x <= 0real) by (nonlinear_arith); assert(a <= 0real && x >= 0real ==> a * x <= 0real) by (nonlinear_arith); assert(a <= 0real && x <= 0real ==> a * x >= 0real) by (nonlinear_arith);
  assert((-a) * x == -(a * x)) by (nonlinear_arith); assert(a * (-x) == -(a * x)) by (nonlinear_arith); assert((-a) * (-x) == a * x) by (nonlinear_arith); }
// the reciprocal
pub proof fn lemma_finv(g: real, d: int, inv: real) requires 1000000000000 <= d < 10000000000000000, rabs(g - d as real) <= 20real, near(inv, 1real / g)
    ensures g > 0real, 0real < inv <= 1real / 400000000000real, rabs(inv * (d as real) - 1real) <= 1real / 40000000000real
{
    let w = 1real / g; assert(w * g == 1real) by (nonlinear_arith) requires w == 1real / g, g > 0real;
    assert(0real < w <= 1real / 900000000000real) by (nonlinear_arith) requires w * g == 1real, g >= 900000000000real;
    assert(w >= 1real / 20000000000000000real) by (nonlinear_arith) requires w * g == 1real, 0real < g <= 20000000000000000real;
    let e = inv - w; let x = d as real;
    assert(inv * x == w * g + w * (x - g) + e * x) by (nonlinear_arith) requires e == inv - w;
    lemma_rabs_mul(w, x - g); lemma_rabs_mul(e, x);
    assert(w * rabs(x - g) <= (1real / 900000000000real) * 20real) by (nonlinear_arith) requires 0real < w <= 1real / 900000000000real, 0real <= rabs(x - g) <= 20real;
    // |e| <= (w + 1e-30)/9e15, so |e|*x <= (w*x + 1e-30*x)/9e15
    assert(w * x <= 2real) by (nonlinear_arith) requires w * g == 1real, w > 0real, x <= 2real * g;
    let t30 = 1real / 1000000000000000000000000000000real;
    lemma_rmul(rabs(e) * 9000000000000000real, w + t30, x);
    assert((w + t30) * x == w * x + t30 * x) by (nonlinear_arith);
    assert(rabs(e) * 9000000000000000real * x == (rabs(e) * x) * 9000000000000000real) by (nonlinear_arith);
}
// the quotient digit
pub proof fn lemma_fq(f: real, h: int, d: int, inv: real, fq: real)
    requires fqb(h, d), rabs(f - h as real) <= 250000real, 0real < inv <= 1real / 400000000000real, rabs(inv * (d as real) - 1real) <= 1real / 40000000000real, near(fq, f * inv)
    ensures rabs(fq * (d as real) - h as real) * 1000000real <= 1real * d as real, rabs(fq) <= 100000real, fsafe(f * inv)
{
    let x = d as real; let hh = h as real; let b = inv * x - 1real;
    lemma_rabs_mul(f, inv); let a = f * inv;
    assert(rabs(f) <= 23001real * x);
    lemma_rmul(rabs(f), 23001real * x, inv); assert(23001real * x * inv == 23001real * (inv * x)) by (nonlinear_arith);
    assert(rabs(a) <= 23002real);
    assert(a * x == f + f * b) by (nonlinear_arith) requires a == f * inv, b == inv * x - 1real;
    lemma_rabs_mul(f, b);
    assert(rabs(f) * rabs(b) <= (23001real * x) * (1real / 40000000000real)) by (nonlinear_arith) requires 0real <= rabs(f) <= 23001real * x, 0real <= rabs(b) <= 1real / 40000000000real;
    let e = fq - a; assert(fq * x == a * x + e * x) by (nonlinear_arith) requires e == fq - a; lemma_rabs_mul(e, x);
    lemma_rmul(rabs(e), 1real / 100000000000real, x);
}
// truncation toward minus infinity
pub proof fn lemma_fdigit(fq: real, h: int, d: int, q: int)
    requires d >= 1, rabs(fq * (d as real) - h as real) * 1000000real <= 1real * d as real, q as real <= fq <= q as real + 1real
    ensures q_ok(h, d, q)
{
    let x = d as real; lemma_rmul(q as real, fq, x); lemma_rmul(fq, q as real + 1real, x);
    assert((q as real + 1real) * x == (q as real) * x + x) by (nonlinear_arith);
    assert((q as real) * x == (q * d) as real) by (nonlinear_arith) requires x == d as real;
    assert(1000000real * ((h - q * d) as real) >= -x);
    assert(1000000real * ((h - q * d) as real) <= 1000001real * x);
}
// ---- the integers behind it
pub open spec fn head_ok1(h: int, d: int, q: int, n: int) -> bool {
    if q <= n - 2 { -30000 * d <= 1000000 * h <= 10000030000 * d } else if q == n - 1 { -30000 * d <= 1000000 * h <= 10002010000 * d } else { -2010000 * d <= 1000000 * h <= 21000010000 * d }
}
pub open spec fn d_ok(d: int) -> bool { 1000000000000 <= d < 10000000000000000 }
pub proof fn lemma_hd(s: Seq<i32>, q: int) ensures hd(s, q, 0) == 0, hd(s, q, 1) == at32(s, q), hd(s, q, 2) == at32(s, q) * 10000 + at32(s, q + 1), hd(s, q, 3) == at32(s, q) * 100000000 + at32(s, q + 1) * 10000 + at32(s, q + 2),
    hd(s, q, 4) == at32(s, q) * 1000000000000 + at32(s, q + 1) * 100000000 + at32(s, q + 2) * 10000 + at32(s, q + 3)
{ reveal_with_fuel(hd, 6); }
pub proof fn lemma_hs(s: Seq<i16>) ensures hs(s, 0) == 0, hs(s, 1) == at(s, 0), hs(s, 2) == at(s, 0) * 10000 + at(s, 1), hs(s, 3) == at(s, 0) * 100000000 + at(s, 1) * 10000 + at(s, 2),
    hs(s, 4) == at(s, 0) * 1000000000000 + at(s, 1) * 100000000 + at(s, 2) * 10000 + at(s, 3)
{ reveal_with_fuel(hs, 6); }
pub proof fn lemma_hs_ok(s: Seq<i16>) requires digs(s), s.len() > 0, s[0] >= 1 ensures d_ok(hs(s, 4))
{ lemma_hs(s); assert(at(s, 0) == s[0]); assert(0 <= at(s, 1) <= 9999); assert(0 <= at(s, 2) <= 9999); assert(0 <= at(s, 3) <= 9999); }
pub proof fn lemma_fast_q(h: int, d: int, q: int, qi: int, n: int) requires d_ok(d), head_ok1(h, d, qi, n), q_ok(h, d, q), qi <= n ensures qi < n ==> -1 <= q <= 10002, -3 <= q <= 21001, fqb(h, d)
{
    let x = q * d;
    if q < -3 || qi < n && q < -1 {
        let k = if qi < n { -2int } else { -4int };
        assert(x <= k * d) by (nonlinear_arith) requires x == q * d, q <= k, d > 0; assert(false);
    }
    if q > 21001 || qi < n && q > 10002 {
        let k = if qi < n { 10003int } else { 21002int };
        assert(x >= k * d) by (nonlinear_arith) requires x == q * d, q >= k, d > 0; assert(false);
    }
}
pub proof fn lemma_fast_cell(c: Seq<i32>, d: int, qi: int, n: int)
    requires c.len() == n + 1, 0 <= qi <= n, d_ok(d), head_ok1(hd(c, qi, 4), d, qi, n), forall|j: int| qi < j <= n ==> -2147265252 <= #[trigger] c[j] <= 2147265252
    ensures qi < n ==> -101000000 <= c[qi] <= 101000000, -220000000 <= c[qi] <= 220000000
{ lemma_hd(c, qi); assert(-2147265252 <= at32(c, qi + 1) <= 2147265252); assert(-2147265252 <= at32(c, qi + 2) <= 2147265252); assert(-2147265252 <= at32(c, qi + 3) <= 2147265252); }
// after subtracting q times the divisor and folding cell qi into the next one
pub proof fn lemma_fast_head(c0: Seq<i32>, c1: Seq<i32>, s2: Seq<i16>, d: int, q: int, qi: int, n: int, nx: int)
    requires c0.len() == n + 1, c1.len() == n + 1, 0 <= qi < n, digs(s2), d == hs(s2, 4), d_ok(d), head_ok1(hd(c0, qi, 4), d, qi, n), q_ok(hd(c0, qi, 4), d, q), -1 <= q <= 10002,
        forall|j: int| qi <= j <= n ==> #[trigger] c1[j] == c0[j] - q * at(s2, j - qi),
        forall|j: int| qi < j <= n ==> -2147265252 <= #[trigger] c1[j] <= 2147265252, nx == c1[qi + 1] + 10000 * c1[qi],
    ensures head_ok(nx * 1000000000000 + at32(c1, qi + 2) * 100000000 + at32(c1, qi + 3) * 10000 + at32(c1, qi + 4), d, qi + 1, n), -220000000 <= nx <= 220000000
{
    lemma_hd(c0, qi); lemma_hs(s2);
    let a0 = at(s2, 0); let a1 = at(s2, 1); let a2 = at(s2, 2); let a3 = at(s2, 3);
    assert(0 <= a0 <= 9999 && 0 <= a1 <= 9999 && 0 <= a2 <= 9999 && 0 <= a3 <= 9999);
    let h = hd(c0, qi, 4);
    assert(c1[qi] == c0[qi] - q * a0); assert(c1[qi + 1] == c0[qi + 1] - q * a1);
    let z2 = q * a2; let z3 = q * a3;
    if q >= 0 { assert(0 <= z2 <= 10002 * 9999 && 0 <= z3 <= 10002 * 9999) by (nonlinear_arith) requires z2 == q * a2, z3 == q * a3, 0 <= q <= 10002, 0 <= a2 <= 9999, 0 <= a3 <= 9999; }
    else { assert(q == -1); assert(z2 == -a2 && z3 == -a3) by (nonlinear_arith) requires q == -1, z2 == q * a2, z3 == q * a3; }
    if qi + 2 <= n { assert(c1[qi + 2] == c0[qi + 2] - z2); }
    if qi + 3 <= n { assert(c1[qi + 3] == c0[qi + 3] - z3); }
    assert(-2147265252 <= at32(c1, qi + 2) <= 2147265252); assert(-2147265252 <= at32(c1, qi + 3) <= 2147265252); assert(-2147265252 <= at32(c1, qi + 4) <= 2147265252);
    let qd = q * d;
    assert(qd == (q * a0) * 1000000000000 + (q * a1) * 100000000 + z2 * 10000 + z3) by (nonlinear_arith) requires qd == q * d, d == a0 * 1000000000000 + a1 * 100000000 + a2 * 10000 + a3, z2 == q * a2, z3 == q * a3;
    // the four cells at qi after the subtraction, with cells beyond the end
    let h1 = c1[qi] * 1000000000000 + at32(c1, qi + 1) * 100000000 + at32(c1, qi + 2) * 10000 + at32(c1, qi + 3);
    let x2 = if qi + 2 <= n { 0 } else { z2 }; let x3 = if qi + 3 <= n { 0 } else { z3 };
    assert(h1 == h - qd + x2 * 10000 + x3);
    let hn = nx * 1000000000000 + at32(c1, qi + 2) * 100000000 + at32(c1, qi + 3) * 10000 + at32(c1, qi + 4);
    assert(hn == 10000 * h1 + at32(c1, qi + 4));
    assert(1000000 * (h - qd) >= -d && 1000000 * (h - qd) <= 1000001 * d);
    assert(head_ok(hn, d, qi + 1, n));
}
pub proof fn lemma_head_relax(h: int, h1: int, d: int, q: int, n: int) requires d_ok(d), head_ok(h, d, q, n), -214750 <= h1 - h <= 214750 ensures head_ok1(h1, d, q, n) {}
// ---- the value
pub open spec fn fval(c: Seq<i32>, tp: int, b: int, pp: int, qi: int, n: int) -> bool {
    let e = tp - lo32(c, qi - 1, qi) * (b * p(n - qi + 1)) - lo32(c, n, n - qi + 1) * pp;
    -(10002 * qi) * pp <= e <= qi * pp
}
pub proof fn lemma32_submul(c0: Seq<i32>, c1: Seq<i32>, n: int, s: Seq<i16>, m: int, q: int, k: int) requires k >= 0, forall|j: int| 0 <= j < k ==> #[trigger] at32(c1, n - j) == at32(c0, n - j) - q * at(s, m - j)
    ensures lo32(c1, n, k) == lo32(c0, n, k) - q * lo(s, m, k) decreases k
{
    if k == 0 { lemma32_0(c0, n, 0); lemma32_0(c1, n, 0); lemma_lo0(s, m, 0); assert(q * 0 == 0); } else {
        let j = k - 1; lemma32_submul(c0, c1, n, s, m, q, j); lemma32_S(c0, n, j); lemma32_S(c1, n, j); lemma_loS(s, m, j); assert(at32(c1, n - j) == at32(c0, n - j) - q * at(s, m - j));
        let x = at32(c0, n - j); let y = at(s, m - j); let w = p(j); let l = lo(s, m, j);
        assert((x - q * y) * w == x * w - q * (y * w)) by (nonlinear_arith); assert(q * (l + y * w) == q * l + q * (y * w)) by (nonlinear_arith);
    }
}
// the part of the divisor that lies beyond the last cell
pub proof fn lemma_fast_trunc(s: Seq<i16>, n2: int, m: int) -> (tr: int) requires digs(s), s.len() == n2, n2 >= 1, m >= 0
    ensures val(s, m) * p(n2 - 1) == val(s, n2 - 1) * p(m) - tr, 0 <= tr < p(n2 - 1)
{
    let b = val(s, n2 - 1); lemma_ppos(n2 - 1);
    if m >= n2 - 1 {
        let k = m - (n2 - 1); lemma_val_shift(s, n2 - 1, k); lemma_padd(n2 - 1, k); let x = p(n2 - 1); let y = p(k);
        assert((b * y) * x == b * (x * y)) by (nonlinear_arith); 0
    } else {
        let k = n2 - 1 - m; lemma_val_cut(s, n2 - 1, m + 1); let l = lo(s, n2 - 1, k); lemma_lo_bounds(s, n2 - 1, k); lemma_padd(k, m); let x = p(k); let y = p(m); let v = val(s, m); lemma_ppos(m);
        assert((v * x + l) * y == v * (x * y) + l * y) by (nonlinear_arith);
        assert(0 <= l * y < x * y) by (nonlinear_arith) requires 0 <= l < x, y >= 1; l * y
    }
}
// the row after subtracting q times the divisor
pub proof fn lemma_fast_row(c0: Seq<i32>, c1: Seq<i32>, s2: Seq<i16>, n2: int, q: int, qi: int, n: int, md: int)
    requires c0.len() == n + 1, c1.len() == n + 1, 0 <= qi < n, digs(s2), s2.len() == n2, -1 <= q <= 10002, q == 0 ==> c1 == c0, iabs(q) <= md,
        q != 0 ==> forall|j: int| qi <= j < qi + imin(n2, n - qi + 1) ==> #[trigger] c1[j] == c0[j] - q * s2[j - qi],
        q != 0 ==> forall|j: int| 0 <= j < qi || qi + imin(n2, n - qi + 1) <= j <= n ==> c1[j] == c0[j],
        forall|j: int| qi < j <= n ==> 0 <= #[trigger] c0[j] + (md - iabs(q)) * 9999 && c0[j] <= (md - iabs(q)) * 9999,
    ensures forall|j: int| qi <= j <= n ==> #[trigger] c1[j] == c0[j] - q * at(s2, j - qi), forall|j: int| qi < j <= n ==> 0 <= #[trigger] c1[j] + md * 9999 && c1[j] <= md * 9999,
        forall|j: int| 0 <= j < qi ==> c1[j] == c0[j]
{
    assert forall|j: int| qi <= j <= n implies #[trigger] c1[j] == c0[j] - q * at(s2, j - qi) by {
        if q == 0 { assert(0 * at(s2, j - qi) == 0); } else if j - qi >= n2 { assert(q * 0 == 0); }
    }
    assert forall|j: int| qi < j <= n implies 0 <= #[trigger] c1[j] + md * 9999 && c1[j] <= md * 9999 by {
        assert(c1[j] == c0[j] - q * at(s2, j - qi)); let aq = iabs(q); let z = at(s2, j - qi); assert(0 <= z <= 9999); let y = q * z;
        assert(-(9999 * aq) <= y <= 9999 * aq) by (nonlinear_arith) requires y == q * z, 0 <= z <= 9999, aq == q || aq == -q, aq >= 0;
        assert(0 <= c0[j] + (md - aq) * 9999 && c0[j] <= (md - aq) * 9999);
    }
}
// ... and after folding the leading cell into the next one
pub proof fn lemma_fast_fold(d: Seq<i32>, c0: Seq<i32>, c1: Seq<i32>, c2: Seq<i32>, q: int, qi: int, n: int, nx: int, md: int)
    requires d.len() == n + 1, c0.len() == n + 1, c1.len() == n + 1, 0 <= qi < n, -220000000 <= nx <= 220000000, -1 <= q <= 10002, c2 == c1.update(qi + 1, nx as i32).update(qi, q as i32),
        forall|j: int| 0 <= j < qi ==> -1 <= #[trigger] d[j] <= 10002, forall|j: int| 0 <= j < qi ==> c0[j] == d[j], forall|j: int| 0 <= j < qi ==> c1[j] == c0[j],
    ensures forall|j: int| 0 <= j < qi + 1 ==> -1 <= #[trigger] c2[j] <= 10002, forall|j: int| 0 <= j < qi ==> #[trigger] c2[j] == c0[j], c2[qi] == q, c2[qi + 1] == nx, c2.len() == n + 1, forall|j: int| qi + 2 <= j <= n ==> #[trigger] c2[j] == c1[j]
{
    assert forall|j: int| 0 <= j < qi + 1 implies -1 <= #[trigger] c2[j] <= 10002 by { if j < qi { assert(c1[j] == c0[j]); assert(c0[j] == d[j]); assert(-1 <= d[j] <= 10002); } else { assert(c2[qi] == q); } }
}
pub proof fn lemma_fast_val(c0: Seq<i32>, c1: Seq<i32>, c2: Seq<i32>, s2: Seq<i16>, n2: int, q: int, qi: int, n: int, tp: int, b: int, pp: int)
    requires c0.len() == n + 1, c1.len() == n + 1, c2.len() == n + 1, 0 <= qi < n, digs(s2), s2.len() == n2, n2 >= 1, b == val(s2, n2 - 1), pp == p(n2 - 1), -1 <= q <= 10002,
        fval(c0, tp, b, pp, qi, n), forall|j: int| qi <= j <= n ==> #[trigger] c1[j] == c0[j] - q * at(s2, j - qi), forall|j: int| 0 <= j < qi ==> #[trigger] c2[j] == c0[j],
        c2[qi] == q, c2[qi + 1] == c1[qi + 1] + 10000 * c1[qi], forall|j: int| qi + 2 <= j <= n ==> #[trigger] c2[j] == c1[j],
    ensures fval(c2, tp, b, pp, qi + 1, n)
{
    let m = n - qi; let tr = lemma_fast_trunc(s2, n2, m); lemma_ppos(n2 - 1); lemma_ppos(m);
    assert forall|j: int| 0 <= j < m + 1 implies #[trigger] at32(c1, n - j) == at32(c0, n - j) - q * at(s2, m - j) by { let i = n - j; assert(c1[i] == c0[i] - q * at(s2, i - qi)); }
    lemma32_submul(c0, c1, n, s2, m, q, m + 1);
    // folding keeps the value of the cells
    assert forall|j: int| 0 <= j < m - 1 implies at32(c1, n - j) == #[trigger] at32(c2, n - j) by { let i = n - j; assert(c2[i] == c1[i]); }
    lemma32_congr(c1, n, c2, n, m - 1); lemma32_S(c1, n, m - 1); lemma32_S(c1, n, m); lemma32_S(c2, n, m - 1); lemma_pS(m);
    let w = p(m - 1); let x0 = c1[qi] as int; let x1 = c1[qi + 1] as int;
    assert((x1 + 10000 * x0) * w == x1 * w + x0 * (10000 * w)) by (nonlinear_arith);
    assert(lo32(c2, n, m) == lo32(c1, n, m + 1));
    // the quotient gets one more digit
    assert forall|j: int| 0 <= j < qi implies at32(c0, qi - 1 - j) == #[trigger] at32(c2, qi - 1 - j) by { let i = qi - 1 - j; assert(c2[i] == c0[i]); }
    lemma32_congr(c0, qi - 1, c2, qi - 1, qi); lemma32_split(c2, qi, 1, qi); lemma32_S(c2, qi, 0); lemma32_0(c2, qi, 0); lemma_p0(); assert(at32(c2, qi) == q);
    let qq = lo32(c0, qi - 1, qi); assert(lo32(c2, qi, qi + 1) == qq * 10000 + q) by { assert(q * 1 == q); }
    lemma_pS(m + 1); let pm = p(m); let dd = lo32(c0, n, m + 1); let vv = val(s2, m);
    assert((qq * 10000 + q) * (b * pm) == qq * (b * (10000 * pm)) + q * (b * pm)) by (nonlinear_arith);
    assert((dd - q * vv) * pp == dd * pp - q * (vv * pp)) by (nonlinear_arith);
    assert(q * (b * pm - tr) == q * (b * pm) - q * tr) by (nonlinear_arith);
    assert(-pp <= q * tr <= 10002 * pp) by (nonlinear_arith) requires -1 <= q <= 10002, 0 <= tr < pp;
    assert(-(10002 * (qi + 1)) * pp == -(10002 * qi) * pp - 10002 * pp) by (nonlinear_arith); assert((qi + 1) * pp == qi * pp + pp) by (nonlinear_arith);
}
// carries between cells do not move the head by more than the cells behind it weigh
pub proof fn lemma32_abs(s: Seq<i32>, top: int, k: int, m: int) requires k >= 0, m >= 0, forall|j: int| 0 <= j < k ==> -m * 9999 <= #[trigger] at32(s, top - j) <= m * 9999
    ensures -m * (p(k) - 1) <= lo32(s, top, k) <= m * (p(k) - 1) decreases k
{
    if k == 0 { lemma32_0(s, top, 0); lemma_p0(); assert(m * 0 == 0); assert(-m * 0 == 0); } else {
        lemma32_abs(s, top, k - 1, m); lemma32_S(s, top, k - 1); lemma_pS(k); assert(-m * 9999 <= at32(s, top - (k - 1)) <= m * 9999);
        let x = at32(s, top - (k - 1)); let w = p(k - 1);
        assert(-m * 9999 * w <= x * w <= m * 9999 * w) by (nonlinear_arith) requires -m * 9999 <= x <= m * 9999, w >= 0;
        assert(m * (10000 * w - 1) == m * (w - 1) + m * 9999 * w) by (nonlinear_arith); assert(-m * (10000 * w - 1) == -m * (w - 1) + -m * 9999 * w) by (nonlinear_arith);
    }
}
pub proof fn lemma_norm_head(c: Seq<i32>, e: Seq<i32>, qi: int, n: int)
    requires c.len() == n + 1, e.len() == n + 1, 0 <= qi <= n, lo32(c, n, n - qi + 1) == lo32(e, n, n - qi + 1), forall|j: int| qi < j <= n ==> -2147265252 <= #[trigger] c[j] <= 2147265252, forall|j: int| qi < j <= n ==> 0 <= #[trigger] e[j] <= 9999
    ensures -214750 <= hd(c, qi, 4) - hd(e, qi, 4) <= 214750
{
    lemma_hd(c, qi); lemma_hd(e, qi); lemma_p10(); lemma_p0();
    if qi + 3 <= n {
        let k = n - qi - 3;
        lemma32_split(c, n, k, 4); lemma32_split(e, n, k, 4); lemma_hd_lo(c, qi); lemma_hd_lo(e, qi);
        assert forall|j: int| 0 <= j < k implies -214748 * 9999 <= #[trigger] at32(c, n - j) <= 214748 * 9999 by { let i = n - j; assert(-2147265252 <= c[i] <= 2147265252); }
        assert forall|j: int| 0 <= j < k implies 0 <= #[trigger] at32(e, n - j) <= 9999 by { let i = n - j; assert(0 <= e[i] <= 9999); }
        lemma32_abs(c, n, k, 214748); lemma32_bounds(e, n, k); lemma_ppos(k);
        let x = hd(c, qi, 4) - hd(e, qi, 4); let w = p(k); let a = hd(c, qi, 4); let b = hd(e, qi, 4);
        assert(a * w - b * w == x * w) by (nonlinear_arith) requires x == a - b;
        assert(-214749 * w <= x * w <= 214749 * w);
        if x > 214750 { assert(x * w > 214749 * w) by (nonlinear_arith) requires x > 214750, w >= 1; } if x < -214750 { assert(x * w < -214749 * w) by (nonlinear_arith) requires x < -214750, w >= 1; }
    } else {
        lemma32_S(c, n, 0); lemma32_S(c, n, 1); lemma32_S(c, n, 2); lemma32_S(e, n, 0); lemma32_S(e, n, 1); lemma32_S(e, n, 2); lemma32_0(c, n, 0); lemma32_0(e, n, 0);
    }
}
pub proof fn lemma_hd_lo(c: Seq<i32>, qi: int) ensures lo32(c, qi + 3, 4) == hd(c, qi, 4)
{ lemma_hd(c, qi); lemma_p10(); lemma_p0(); lemma32_0(c, qi + 3, 0); lemma32_S(c, qi + 3, 0); lemma32_S(c, qi + 3, 1); lemma32_S(c, qi + 3, 2); lemma32_S(c, qi + 3, 3); }
// one signed carry step
pub proof fn lemma_carry32(e0: Seq<i32>, e1: Seq<i32>, d: Seq<i32>, i: int, n: int, c0: int, c1: int)
    requires 0 <= i <= n, e0.len() == n + 1, d.len() == n + 1, e1 == e0.update(i, e1[i]), lo32(e0, n, n - i) + c0 * p(n - i) == lo32(d, n, n - i), e1[i] + 10000 * c1 == d[i] + c0
    ensures lo32(e1, n, n - i + 1) + c1 * p(n - i + 1) == lo32(d, n, n - i + 1)
{
    let k = n - i; lemma32_upd_out(e0, i, e1[i], n, k); lemma32_S(e1, n, k); lemma32_S(d, n, k); lemma_pS(k + 1); let q = p(k); let x = e1[i] as int; let y = d[i] as int;
    assert(x * q + c1 * (10000 * q) == y * q + c0 * q) by (nonlinear_arith) requires x + 10000 * c1 == y + c0;
}
pub proof fn lemma_carry16(e0: Seq<i16>, e1: Seq<i16>, d: Seq<i32>, i: int, n: int, c0: int, c1: int)
    requires 0 <= i <= n, e0.len() == n + 1, d.len() == n + 1, e1 == e0.update(i, e1[i]), lo(e0, n, n - i) + c0 * p(n - i) == lo32(d, n, n - i), e1[i] + 10000 * c1 == d[i] + c0
    ensures lo(e1, n, n - i + 1) + c1 * p(n - i + 1) == lo32(d, n, n - i + 1)
{
    let k = n - i; lemma_lo_upd_out(e0, i, e1[i], n, k); lemma_loS(e1, n, k); lemma32_S(d, n, k); lemma_pS(k + 1); let q = p(k); let x = e1[i] as int; let y = d[i] as int;
    assert(x * q + c1 * (10000 * q) == y * q + c0 * q) by (nonlinear_arith) requires x + 10000 * c1 == y + c0;
}
// fval only depends on the value of the cells from qi on
pub proof fn lemma_fval_norm(c: Seq<i32>, e: Seq<i32>, tp: int, b: int, pp: int, qi: int, n: int)
    requires 0 <= qi <= n, fval(c, tp, b, pp, qi, n), lo32(c, n, n - qi + 1) == lo32(e, n, n - qi + 1), forall|j: int| 0 <= j < qi ==> #[trigger] e[j] == c[j], c.len() == n + 1, e.len() == n + 1
    ensures fval(e, tp, b, pp, qi, n)
{ assert forall|j: int| 0 <= j < qi implies at32(c, qi - 1 - j) == #[trigger] at32(e, qi - 1 - j) by { let i = qi - 1 - j; assert(e[i] == c[i]); } lemma32_congr(c, qi - 1, e, qi - 1, qi); }
// ---- first and last
pub proof fn lemma_fast_init(c: Seq<i32>, s: Seq<i16>, n1: int, n: int, d: int, b: int, pp: int)
    requires digs(s), s.len() == n1, 1 <= n1 <= n, 4 <= n, c.len() == n + 1, d_ok(d), forall|i: int| 0 <= i <= n ==> #[trigger] c[i] == (if 1 <= i <= n1 { s[i - 1] as int } else { 0 })
    ensures lo32(c, n, n + 1) == val(s, n1 - 1) * p(n - n1), head_ok(hd(c, 0, 4), d, 0, n), fval(c, lo32(c, n, n + 1) * pp, b, pp, 0, n)
{
    lemma_hd(c, 0); assert(c[0] == 0); assert(0 <= at32(c, 1) <= 9999); assert(0 <= at32(c, 2) <= 9999); assert(0 <= at32(c, 3) <= 9999);
    assert forall|j: int| 0 <= j < n implies #[trigger] at32(c, n - j) == at(s, n - 1 - j) by { let i = n - j; assert(c[i] == (if 1 <= i <= n1 { s[i - 1] as int } else { 0 })); }
    lemma32_of16(c, n, s, n - 1, n); lemma32_S(c, n, n); assert(at32(c, 0) == 0); assert(0 * p(n) == 0); lemma_val_shift(s, n1 - 1, n - n1);
    lemma32_0(c, -1, 0); assert(0 * (b * p(n + 1)) == 0); assert(-(10002 * 0) * pp == 0 && 0 * pp == 0);
}
pub proof fn lemma32_of16(c: Seq<i32>, n: int, s: Seq<i16>, m: int, k: int) requires k >= 0, forall|j: int| 0 <= j < k ==> #[trigger] at32(c, n - j) == at(s, m - j) ensures lo32(c, n, k) == lo(s, m, k) decreases k
{ if k == 0 { lemma32_0(c, n, 0); lemma_lo0(s, m, 0); } else { lemma32_of16(c, n, s, m, k - 1); lemma32_S(c, n, k - 1); lemma_loS(s, m, k - 1); assert(at32(c, n - (k - 1)) == at(s, m - (k - 1))); } }
// the first four digits against the whole divisor
pub proof fn lemma_fast_d(s: Seq<i16>, n2: int) requires digs(s), s.len() == n2, n2 >= 1
    ensures hs(s, 4) * p(n2 - 1) <= val(s, n2 - 1) * 1000000000000 < (hs(s, 4) + 1) * p(n2 - 1)
{
    lemma_hs(s); lemma_p10(); lemma_p0(); lemma_loS(s, 3, 0); lemma_loS(s, 3, 1); lemma_loS(s, 3, 2); lemma_loS(s, 3, 3); lemma_lo0(s, 3, 0);
    let d = val(s, 3); assert(d == hs(s, 4)); let b = val(s, n2 - 1); lemma_ppos(n2 - 1); let pp = p(n2 - 1);
    if n2 >= 4 {
        lemma_val_cut(s, n2 - 1, 4); lemma_lo_bounds(s, n2 - 1, n2 - 4); lemma_padd(n2 - 4, 3); let w = p(n2 - 4); let l = lo(s, n2 - 1, n2 - 4);
        assert((d * w + l) * 1000000000000 == d * (w * 1000000000000) + l * 1000000000000) by (nonlinear_arith); assert((d + 1) * pp == d * pp + pp) by (nonlinear_arith);
    } else {
        lemma_val_shift(s, n2 - 1, 4 - n2); lemma_padd(4 - n2, n2 - 1); let w = p(4 - n2);
        assert((b * w) * pp == b * (w * pp)) by (nonlinear_arith); assert((d + 1) * pp == d * pp + pp) by (nonlinear_arith);
    }
}
pub open spec fn fast_e(n: int) -> int { 10002 * n + 3 }
pub proof fn lemma_fast_last(c0: Seq<i32>, c1: Seq<i32>, s2: Seq<i16>, n2: int, d: int, q: int, n: int, tp: int, b: int, pp: int)
    requires c0.len() == n + 1, c1 == c0.update(n, c1[n]), c1[n] == q, n >= 4, digs(s2), s2.len() == n2, n2 >= 1, s2[0] >= 1, d == hs(s2, 4), d_ok(d), b == val(s2, n2 - 1), pp == p(n2 - 1), fval(c0, tp, b, pp, n, n), q_ok(hd(c0, n, 4), d, q), -3 <= q <= 21001
    ensures -(fast_e(n) * b) <= tp - lo32(c1, n, n + 1) * b <= fast_e(n) * b, pp <= b < 10000 * pp
{
    lemma_hd(c0, n); lemma_fast_d(s2, n2); lemma_val_first(s2, n2 - 1); lemma_val_bounds(s2, n2 - 1); lemma_pS(n2); lemma_ppos(n2 - 1);
    lemma32_S(c0, n, 0); lemma32_0(c0, n, 0); lemma_p0(); lemma_pS(1); let cn = c0[n] as int; let qq = lo32(c0, n - 1, n);
    lemma32_split(c1, n, 1, n); lemma32_S(c1, n, 0); lemma32_0(c1, n, 0); lemma32_upd_out(c0, n, c1[n], n - 1, n); assert(q * 1 == q); assert(cn * 1 == cn);
    let v = qq * 10000 + q; assert(lo32(c1, n, n + 1) == v);
    assert(v * b == qq * (b * 10000) + q * b) by (nonlinear_arith) requires v == qq * 10000 + q;
    // cn*pp - q*b, in units of 10000^-3
    let z = b * 1000000000000 - d * pp; assert((d + 1) * pp == d * pp + pp) by (nonlinear_arith); assert(0 <= z < pp);
    let h = cn * 1000000000000; let r = h - q * d;
    assert((cn * pp - q * b) * 1000000000000 == r * pp - q * z) by (nonlinear_arith) requires h == cn * 1000000000000, r == h - q * d, z == b * 1000000000000 - d * pp;
    assert(-(d * pp) <= 1000000 * (r * pp) <= 1000001 * (d * pp)) by (nonlinear_arith) requires -d <= 1000000 * r <= 1000001 * d, pp >= 1;
    assert(-21001 * pp <= q * z <= 21001 * pp) by (nonlinear_arith) requires -3 <= q <= 21001, 0 <= z < pp;
    let e = cn * pp - q * b; assert(-2 * b <= e <= 2 * b);
    let err = tp - qq * (b * p(1)) - lo32(c0, n, 1) * pp;
    assert(-(10002 * n) * b <= err <= 10002 * n * b) by (nonlinear_arith) requires -(10002 * n) * pp <= err <= n * pp, 0 <= pp <= b, n >= 0;
    assert(fast_e(n) * b == 10002 * n * b + 3 * b) by (nonlinear_arith); assert(-(10002 * n) * b == -(10002 * n * b)) by (nonlinear_arith);
}
// the quotient is a number of n + 1 digits
pub proof fn lemma_fast_range(qf: int, tt: int, b: int, pp: int, n: int, n1: int, v1: int)
    requires 4 <= n <= 60000, 1 <= n1 <= n, p(n1 - 1) <= v1 < p(n1), tt == v1 * p(n - n1), -(fast_e(n) * b) <= tt * pp - qf * b <= fast_e(n) * b, 1 <= pp <= b < 10000 * pp
    ensures 0 <= qf < p(n + 1)
{
    lemma_padd(n1 - 1, n - n1); lemma_padd(n1, n - n1); lemma_ppos(n - n1); let w = p(n - n1); let a = p(n1 - 1); let c = p(n1);
    assert(a * w <= v1 * w < c * w) by (nonlinear_arith) requires a <= v1 < c, w >= 1;
    assert(p(n - 1) <= tt < p(n)); lemma_p10(); lemma_pS(n + 1); lemma_pS(n);
    if n == 4 { lemma_pS(4); } else { lemma_pmono(4, n - 1); lemma_pS(4); }
    let e = fast_e(n);
    if qf >= p(n + 1) {
        assert(qf >= tt + e + 1); assert(qf * b >= (tt + e + 1) * b) by (nonlinear_arith) requires qf >= tt + e + 1, b >= 1; assert((tt + e + 1) * b == tt * b + e * b + b) by (nonlinear_arith);
        assert(tt * pp <= tt * b) by (nonlinear_arith) requires tt >= 0, pp <= b; assert(false);
    }
    if qf < 0 {
        assert(qf * b <= -b) by (nonlinear_arith) requires qf <= -1, b >= 1;
        assert(tt >= e * 10000); assert(tt * pp >= (e * 10000) * pp) by (nonlinear_arith) requires tt >= e * 10000, pp >= 1;
        assert((e * 10000) * pp >= e * b) by (nonlinear_arith) requires e >= 0, 10000 * pp >= b; assert(false);
    }
}
// ---- the quotient as seen from outside: within (1/2 + 2/10^11) units of the exact one
pub open spec fn fast_err(x: int, y: int, r: int, ds: int) -> bool { -(50000000002 * (U(ds) * y)) <= 100000000000 * (r * y - x * p(KK)) <= 50000000002 * (U(ds) * y) }
pub proof fn lemma_fast_finish(s1: Seq<i16>, w1: int, s2: Seq<i16>, w2: int, fin: Seq<i16>, n: int, ds: int, x: int, y: int)
    requires digs(s1), digs(s2), s1.len() >= 1, s2.len() >= 1, s2[0] >= 1, digs(fin), fin.len() == n + 1, s1.len() <= n, 4 <= n <= 60000, x == V(s1, w1), y == V(s2, w2), 0 <= ds <= 100000,
        -45000 <= w1 <= 45000, -45000 <= w2 <= 45000, s2.len() - 1 - w2 <= 45000, s1.len() - 1 - w1 <= 45000, n - (w1 - w2 + 1) <= 99000, 4 * (n - (w1 - w2 + 1)) >= ds + 20,
        -(fast_e(n) * val(s2, s2.len() - 1)) <= val(s1, s1.len() - 1) * p(n - s1.len()) * p(s2.len() - 1) - val(fin, n) * val(s2, s2.len() - 1) <= fast_e(n) * val(s2, s2.len() - 1)
    ensures y > 0, fast_err(x, y, roundm(V(fin, w1 - w2 + 1), ds), ds)
{
    let n1 = s1.len() as int; let n2 = s2.len() as int; let rw = w1 - w2 + 1; let qf = val(fin, n); let v1 = val(s1, n1 - 1); let b = val(s2, n2 - 1); let e = fast_e(n);
    let k = rw + KK - n; let ky = w2 + KK - (n2 - 1); let kx = w1 + KK - (n1 - 1);
    lemma_val_shift(fin, n, k); lemma_val_shift(s1, n1 - 1, kx); lemma_val_shift(s2, n2 - 1, ky); lemma_val_first(s2, n2 - 1); lemma_ppos(n2 - 1); lemma_ppos(ky); lemma_ppos(k);
    let u = p(k); let py = p(ky); let m = V(fin, rw); assert(m == qf * u); assert(y == b * py); assert(x == v1 * p(kx));
    assert(y > 0) by (nonlinear_arith) requires y == b * py, b >= 1, py >= 1;
    // everything times p(k + ky)
    lemma_padd(k, ky); let w = p(k + ky);
    assert(m * y == (qf * b) * w) by (nonlinear_arith) requires m == qf * u, y == b * py, w == u * py;
    lemma_padd(n - n1, n2 - 1); lemma_padd(n - n1 + n2 - 1, k + ky); lemma_padd(kx, KK); assert(n - n1 + n2 - 1 + k + ky == kx + KK);
    let g = p(n - n1); let pp = p(n2 - 1);
    assert(x * p(KK) == (v1 * g * pp) * w) by (nonlinear_arith) requires x == v1 * p(kx), p(kx) * p(KK) == (g * pp) * w;
    let del = v1 * g * pp - qf * b;
    assert(m * y - x * p(KK) == -del * w) by (nonlinear_arith) requires m * y == (qf * b) * w, x * p(KK) == (v1 * g * pp) * w, del == v1 * g * pp - qf * b;
    lemma_ppos(k + ky);
    assert(-(e * b * w) <= -del * w <= e * b * w) by (nonlinear_arith) requires -(e * b) <= del <= e * b, w >= 0;
    assert(e * b * w == e * (y * u)) by (nonlinear_arith) requires y == b * py, w == u * py;
    // e*u <= U(ds) / (5*10^10)
    lemma_pt(k); lemma_U(ds); lemma_tmono(4 * k + 20, 4 * KK - ds); lemma_tadd(4 * k, 20); lemma_t20(); let uu = U(ds);
    assert(50000000000 * (e * u) <= uu) by (nonlinear_arith) requires u * 100000000000000000000 <= uu, 0 <= e <= 700000000, u >= 1;
    assert(e * (y * u) == (e * u) * y) by (nonlinear_arith);
    assert(50000000000 * ((e * u) * y) <= uu * y) by (nonlinear_arith) requires 50000000000 * (e * u) <= uu, y > 0;
    // rounding
    let r = roundm(m, ds); lemma_val_bounds(fin, rw + KK); lemma_round_near(m, ds);
    assert(-(uu * y) <= 2 * ((r - m) * y) <= uu * y) by (nonlinear_arith) requires -uu <= 2 * (r - m) <= uu, y > 0;
    assert((r - m) * y + m * y == r * y) by (nonlinear_arith);
}
pub proof fn lemma_fast_zero(y: int, ds: int) requires y >= 0, 0 <= ds <= 200000 ensures roundm(0, ds) == 0, fast_err(0, y, 0, ds)
{ lemma_U(ds); lemma_round_zero(ds); assert(U(ds) * y >= 0) by (nonlinear_arith) requires U(ds) >= 0, y >= 0; assert(0 * y == 0 && 0 * p(KK) == 0); }
pub proof fn lemma_t20() ensures t(20) == 100000000000000000000 { reveal_with_fuel(t, 21); }
// ---- glue between the cells and the float computations
pub open spec fn fhb(c: Seq<i32>, qi: int) -> bool {
    -300000000 <= hd(c, qi, 1) <= 300000000 && -3100000000000 <= hd(c, qi, 2) <= 3100000000000 && -31000000000000000 <= hd(c, qi, 3) <= 31000000000000000
}
pub proof fn lemma_fhb(c: Seq<i32>, qi: int) requires -220000000 <= at32(c, qi) <= 220000000 ensures fhb(c, qi)
{ lemma_hd(c, qi); assert(-2147483648 <= at32(c, qi + 1) <= 2147483647); assert(-2147483648 <= at32(c, qi + 2) <= 2147483647); }
pub proof fn lemma_fq0(f: real, h: int, d: int, inv: real)
    requires fqb(h, d), rabs(f - h as real) <= 250000real, 0real < inv <= 1real / 400000000000real, rabs(inv * (d as real) - 1real) <= 1real / 40000000000real
    ensures fsafe(f * inv)
{
    let x = d as real; lemma_rabs_mul(f, inv); assert(rabs(f) <= 23001real * x);
    lemma_rmul(rabs(f), 23001real * x, inv); assert(23001real * x * inv == 23001real * (inv * x)) by (nonlinear_arith);
}
pub proof fn lemma_fast_sub(q: int, z: int, aq: int, md: int) requires 0 <= z <= 9999, aq == (if q >= 0 { q } else { -q }), aq <= 100000
    ensures -aq * 9999 <= q * z <= aq * 9999, (md - aq) * 9999 + aq * 9999 == md * 9999
{ assert(-aq * 9999 <= q * z <= aq * 9999) by (nonlinear_arith) requires 0 <= z <= 9999, aq == (if q >= 0 { q } else { -q }); }
pub proof fn lemma_fast_nocarry(v: int, c: int, q: int, n: int) requires n >= 0, 0 <= v < p(n + 1), v + c * p(n + 1) == q, 0 <= q < p(n + 1) ensures c == 0, v == q
{ let w = p(n + 1); if c >= 1 { assert(c * w >= w) by (nonlinear_arith) requires c >= 1, w >= 1; } if c <= -1 { assert(c * w <= -w) by (nonlinear_arith) requires c <= -1, w >= 1; } assert(0 * w == 0); }
pub proof fn lemma_fdiv_safe(g: real) requires g >= 1real ensures g != 0real, fsafe(1real / g) { let w = 1real / g; assert(w * g == 1real) by (nonlinear_arith) requires w == 1real / g, g >= 1real; assert(0real <= w <= 1real) by (nonlinear_arith) requires w * g == 1real, g >= 1real; }
// ---------------------------------------------------------------- the square root
// r is less than 0.50000005 units of scale ds away from the square root of x (everything in units of 10000^-KK)
pub open spec fn sq_err(x: int, r: int, ds: int) -> bool {
    let a = 100000000 * r - 50000005 * U(ds); let b = 100000000 * r + 50000005 * U(ds);
    (a <= 0 || a * a <= 10000000000000000 * (x * p(KK))) && 10000000000000000 * (x * p(KK)) <= b * b
}
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn sqrt_scale(v: NView) -> int { imin(imax(imax(16 - tdiv((v.weight + 1) * 4, 2) + 1, v.dscale), 0), 1000) }
pub open spec fn nstep(x: int, a: int, b: int, ls: int) -> bool { let d = (2 * b - a) * a - x * p(KK); -(151 * (U(ls) * a)) <= 100 * d <= 151 * (U(ls) * a) }
pub open spec fn sq_near(x: int, r: int, ls: int) -> bool { let d = r * r - x * p(KK); -(453 * (U(ls) * r)) <= 100 * d <= 453 * (U(ls) * r) }
pub proof fn lemma_sq_zero(rs: int) requires 0 <= rs <= 10000 ensures sq_err(0, 0, rs)
{ lemma_U(rs); let b = 50000005 * U(rs); assert(b * b >= 0) by (nonlinear_arith); assert(0 * p(KK) == 0); }
pub proof fn lemma_half() ensures 2 * (5000 * p(KK - 1)) == p(KK) { lemma_pS(KK); }
pub proof fn lemma_sqrt_step(x: int, a: int, v: int, b: int, ls: int, n: int)
    requires a > 0, 0 <= ls <= 10008, n <= 1, fast_err(x, a, v, ls), mul_near(a + v, 5000 * p(KK - 1), b, ls, n)
    ensures nstep(x, a, b, ls), -10004 * U(ls) <= 10000 * (2 * b - a - v) <= 10000 * U(ls)
{
    lemma_half(); lemma_U(ls); lemma_ppos(KK); let u = U(ls); let pp = p(KK); let h = 5000 * p(KK - 1); let s = a + v; let e = 2 * b - s;
    assert(2 * (b * pp - s * h) == e * pp) by (nonlinear_arith) requires 2 * h == pp, e == 2 * b - s;
    assert(e <= u) by (nonlinear_arith) requires e * pp <= u * pp, pp >= 1;
    let up = u * pp; assert(up >= 0) by (nonlinear_arith) requires up == u * pp, u >= 0, pp >= 0;
    assert((10002 + 2 * n) * up <= 10004 * up) by (nonlinear_arith) requires n <= 1, up >= 0;
    assert(10000 * (e * pp) >= -10004 * (u * pp));
    assert(10000 * e >= -10004 * u) by (nonlinear_arith) requires 10000 * (e * pp) >= -10004 * (u * pp), pp >= 1;
    let ua = u * a;
    assert((2 * b - a) * a == v * a + e * a) by (nonlinear_arith) requires e == 2 * b - (a + v);
    assert(-10004 * ua <= 10000 * (e * a) <= 10000 * ua) by (nonlinear_arith) requires -10004 * u <= 10000 * e <= 10000 * u, a > 0, ua == u * a;
    assert(ua >= 0) by (nonlinear_arith) requires ua == u * a, u >= 0, a > 0;
}
pub proof fn lemma_sqrt_fix(x: int, c: int, a: int, b: int, ls: int)
    requires a > 0, nstep(x, a, b, ls), b == a || (b == c && c > 0 && nstep(x, c, a, ls)), 0 <= ls <= 10008
    ensures sq_near(x, b, ls)
{
    lemma_U(ls); let u = U(ls); let q = x * p(KK);
    if b == a { assert((2 * a - a) * a == a * a) by (nonlinear_arith); assert(u * a >= 0) by (nonlinear_arith) requires u >= 0, a > 0; }
    else {
        let k = c - a;
        assert((2 * c - a) * a - (2 * a - c) * c == k * (c + a)) by (nonlinear_arith) requires k == c - a;
        assert(u * a + u * c == u * (c + a)) by (nonlinear_arith);
        assert(-151 * u <= 100 * k <= 151 * u) by (nonlinear_arith) requires -(151 * (u * (c + a))) <= 100 * (k * (c + a)) <= 151 * (u * (c + a)), c + a > 0;
        assert((2 * a - c) * c == c * c - 2 * (k * c)) by (nonlinear_arith) requires k == c - a;
        assert(-151 * (u * c) <= 100 * (k * c) <= 151 * (u * c)) by (nonlinear_arith) requires -151 * u <= 100 * k <= 151 * u, c > 0;
    }
}
pub proof fn lemma_sqrt_size(a: int, v: int, b: int, ls: int, w: int)
    requires 0 < a <= p(33030 + KK), 0 <= v <= p(33029 + KK), 0 <= ls <= 10008, 10000 * (2 * b - a - v) <= 10000 * U(ls), -99000 <= w <= 99000, p(w + KK) <= b < p(w + 1 + KK), dvd(U(ls), b)
    ensures b <= p(33030 + KK), -2503 <= w <= 33030, ls <= 1008 ==> w >= -253
{
    lemma_U(ls); lemma_pS(33030 + KK); lemma_pt(33029 + KK); lemma_tmono(4 * KK - ls, 4 * (33029 + KK)); lemma_ppos(33029 + KK); lemma_ppos(w + KK);
    if w >= 33031 { lemma_pmono(33031 + KK, w + KK); lemma_pS(33031 + KK); }
    if w <= -254 && ls <= 1008 { lemma_pmono(w + 1 + KK, KK - 253); lemma_pt(KK - 253); lemma_tmono(4 * (KK - 253), 4 * KK - ls); lemma_dvd_i(U(ls), b); let q = b / U(ls); let u = U(ls); if q <= 0 { assert(q * u <= 0) by (nonlinear_arith) requires q <= 0, u >= 0; } else { assert(q * u >= u) by (nonlinear_arith) requires q >= 1, u >= 0; } }
    if w <= -2504 { lemma_pmono(w + 1 + KK, KK - 2503); lemma_pt(KK - 2503); lemma_tmono(4 * (KK - 2503), 4 * KK - ls); lemma_dvd_i(U(ls), b); let q = b / U(ls); let u = U(ls); if q <= 0 { assert(q * u <= 0) by (nonlinear_arith) requires q <= 0, u >= 0; } else { assert(q * u >= u) by (nonlinear_arith) requires q >= 1, u >= 0; } }
}
pub proof fn lemma_sqrt_zero(x: int, a: int, b: int, rs: int, ls: int) requires a > 0, x >= 0, b == 0, ls == rs + 8, 0 <= rs <= 10000, nstep(x, a, b, ls) ensures sq_err(x, 0, rs)
{
    lemma_U(ls); lemma_U(rs); lemma_tadd(4 * KK - ls, 8); reveal_with_fuel(t, 9); let u = U(ls); let q = x * p(KK); lemma_ppos(KK);
    assert(q >= 0) by (nonlinear_arith) requires q == x * p(KK), x >= 0, p(KK) >= 0;
    assert((2 * 0 - a) * a == -(a * a)) by (nonlinear_arith);
    assert(a * a >= 0) by (nonlinear_arith);
    assert(100 * (a * a) <= 151 * (u * a));
    assert(100 * a <= 151 * u) by (nonlinear_arith) requires 100 * (a * a) <= 151 * (u * a), a > 0;
    assert(100 * q <= 151 * (u * a));
    assert(100 * (u * a) <= 151 * (u * u)) by (nonlinear_arith) requires 100 * a <= 151 * u, u >= 0;
    assert(10000 * q <= 22801 * (u * u));
    let b = 50000005 * U(rs); assert(U(rs) == 100000000 * u);
    assert(10000000000000000 * q <= 100000000000000000 * (u * u));
    let z = 50000005int * 100000000; assert(b == z * u); assert(b * b == (z * z) * (u * u)) by (nonlinear_arith) requires b == z * u; assert(z * z >= 100000000000000000); 
    assert((z * z) * (u * u) >= 100000000000000000 * (u * u)) by (nonlinear_arith) requires z * z >= 100000000000000000, u * u >= 0; assert(u * u >= 0) by (nonlinear_arith);
}
pub proof fn lemma_sqrt_final(x: int, r: int, rs: int) requires r > 0, x >= 0, 0 <= rs <= 10000, sq_near(x, r, rs + 8) ensures sq_err(x, roundm(r, rs), rs)
{
    let ls = rs + 8; lemma_U(ls); lemma_U(rs); lemma_tadd(4 * KK - ls, 8); reveal_with_fuel(t, 9); let u = U(ls); let q = x * p(KK); let uu = U(rs); assert(uu == 100000000 * u);
    let f = roundm(r, rs); lemma_round_near(r, rs);
    let a = 100000000 * f - 50000005 * uu; let b = 100000000 * f + 50000005 * uu; let m = 100000000int; let e = r - 5 * u; let g = r + 5 * u;
    assert(a <= m * e && m * g <= b);
    // (r - 5u)^2 <= q when r >= 5u
    assert(e * e == r * r - 10 * (u * r) + 25 * (u * u)) by (nonlinear_arith) requires e == r - 5 * u;
    assert(g * g == r * r + 10 * (u * r) + 25 * (u * u)) by (nonlinear_arith) requires g == r + 5 * u;
    assert(u * u >= 0) by (nonlinear_arith); assert(u * r >= 0) by (nonlinear_arith) requires u >= 0, r > 0;
    assert(q <= g * g);
    assert((m * g) * (m * g) == 10000000000000000 * (g * g)) by (nonlinear_arith) requires m == 100000000;
    assert(b * b >= (m * g) * (m * g)) by (nonlinear_arith) requires b >= m * g, m * g >= 0;
    if a > 0 {
        assert(5 * u <= r); assert(5 * (u * u) <= u * r) by (nonlinear_arith) requires 5 * u <= r, u >= 0;
        assert(e * e <= q);
        assert((m * e) * (m * e) == 10000000000000000 * (e * e)) by (nonlinear_arith) requires m == 100000000;
        assert(a * a <= (m * e) * (m * e)) by (nonlinear_arith) requires 0 < a <= m * e;
    }
}
// a normalised value on scale ds has no digits beyond it
pub proof fn lemma_norm_frac(s: Seq<i16>, w: int, ds: int) requires digs(s), s.len() > 0, s[s.len() - 1] != 0, 0 <= ds <= 99000, -99000 <= w <= 99000, s.len() - 1 - w <= 99000, dvd(U(ds), V(s, w))
    ensures s.len() - 1 - w <= (ds + 3) / 4
{
    let n = s.len() as int; let c = (ds + 3) / 4;
    if n - 1 - w > c {
        let e = w + KK + 1 - n; lemma_val_shift(s, n - 1, e); lemma_ppos(e); let v = val(s, n - 1); lemma_pS(e + 1);
        lemma_pt(e + 1); lemma_t_dvd(4 * (e + 1), 4 * KK - ds); lemma_U(ds); lemma_ppos(e + 1); lemma_dvd_trans(p(e + 1), U(ds), V(s, w)); lemma_dvd_i(p(e + 1), V(s, w));
        let q = V(s, w) / p(e + 1); let pe = p(e); assert(v * pe == q * (10000 * pe)); assert(v == q * 10000) by (nonlinear_arith) requires v * pe == q * (10000 * pe), pe >= 1;
        lemma_val_step(s, n - 1); assert(at(s, n - 1) == s[n - 1]); 
    }
}
// ---- why the square root's iteration ends: from its first step on the value is a multiple k of the unit, at least s - 0.7503 units;
// a step down decreases k, a step up goes up by one unit and the step after that goes back to one of the two values, which ends the loop
pub open spec fn sq_low(q: int, u: int, b: int) -> bool { b >= 0 && 100000000 * q <= (10000 * b + 7503 * u) * (10000 * b + 7503 * u) }
pub open spec fn sq_up(q: int, u: int, c: int) -> bool { c > 0 && dvd(u, c) && sq_low(q, u, c) && 100000000000 * (c * c) + 49999999998 * (u * c) <= 100000000000 * q }
pub proof fn lemma_sq_low(x: int, a: int, v: int, b: int, ls: int)
    requires a > 0, b >= 0, x >= 0, 0 <= ls <= 10008, fast_err(x, a, v, ls), -10004 * U(ls) <= 10000 * (2 * b - a - v)
    ensures sq_low(x * p(KK), U(ls), b)
{
    lemma_U(ls); let u = U(ls); let q = x * p(KK); let tt = 20000 * b + 15006 * u;
    let s2 = 10000 * (2 * b + u) + 4 * u;
    assert(10000 * a + 10000 * v <= s2);
    assert((10000 * a + 10000 * v) * a <= s2 * a) by (nonlinear_arith) requires 10000 * a + 10000 * v <= s2, a > 0;
    assert((10000 * a + 10000 * v) * a == 10000 * (a * a) + 10000 * (v * a)) by (nonlinear_arith);
    let ua = u * a; assert(ua >= 0) by (nonlinear_arith) requires ua == u * a, u >= 0, a > 0;
    assert(10000 * (v * a) >= 10000 * q - 5001 * ua);
    assert(s2 * a + 5001 * ua <= tt * a) by (nonlinear_arith) requires s2 == 10000 * (2 * b + u) + 4 * u, tt == 20000 * b + 15006 * u, ua == u * a, ua >= 0;
    assert(10000 * (a * a) + 10000 * q <= tt * a);
    // (20000 a - tt)^2 >= 0
    let z = 20000 * a - tt; assert(z * z >= 0) by (nonlinear_arith);
    assert(z * z == 400000000 * (a * a) - 40000 * (tt * a) + tt * tt) by (nonlinear_arith) requires z == 20000 * a - tt;
    let h = 10000 * b + 7503 * u; assert(tt * tt == 4 * (h * h)) by (nonlinear_arith) requires tt == 2 * h;
}
pub proof fn lemma_mult(u: int, a: int) -> (k: int) requires u > 0, dvd(u, a) ensures a == k * u, a > 0 ==> k >= 1, a >= 0 ==> k >= 0
{ lemma_dvd_i(u, a); let k = a / u; assert(a > 0 ==> k >= 1) by (nonlinear_arith) requires a == k * u, u > 0; assert(a >= 0 ==> k >= 0) by (nonlinear_arith) requires a == k * u, u > 0; k }
// the quotient and the step in units
pub proof fn lemma_sq_units(x: int, a: int, v: int, b: int, ls: int, k: int, n: int, m: int)
    requires 0 <= ls <= 10008, fast_err(x, a, v, ls), -10004 * U(ls) <= 10000 * (2 * b - a - v) <= 10000 * U(ls), a == k * U(ls), v == n * U(ls), b == m * U(ls), k >= 1
    ensures -1 <= 2 * m - k - n <= 1, ({ let w = U(ls) * U(ls); &&& w > 0 &&& -(50000000002 * (k * w)) <= 100000000000 * ((n * k) * w - x * p(KK)) <= 50000000002 * (k * w) })
{
    lemma_U(ls); let u = U(ls); let w = u * u; let d = 2 * m - k - n;
    assert(2 * b - a - v == d * u) by (nonlinear_arith) requires d == 2 * m - k - n, a == k * u, v == n * u, b == m * u;
    assert(-1 <= d <= 1) by (nonlinear_arith) requires -10004 * u <= 10000 * (d * u) <= 10000 * u, u > 0;
    assert(w > 0) by (nonlinear_arith) requires w == u * u, u > 0;
    assert(u * a == k * w) by (nonlinear_arith) requires a == k * u, w == u * u;
    assert(v * a == (n * k) * w) by (nonlinear_arith) requires a == k * u, v == n * u, w == u * u;
}
pub proof fn lemma_sq_low_u(q: int, u: int, b: int, k: int) requires b == k * u, sq_low(q, u, b) ensures 100000000 * q <= (100000000 * (k * k) + 150060000 * k + 56295009) * (u * u)
{ let h = 10000 * b + 7503 * u; assert(h * h == (100000000 * (k * k) + 150060000 * k + 56295009) * (u * u)) by (nonlinear_arith) requires h == 10000 * b + 7503 * u, b == k * u; }
// a step up is by one unit
pub proof fn lemma_sq_up(x: int, a: int, v: int, b: int, ls: int)
    requires 0 <= ls <= 10008, a > 0, v >= 0, b > a, dvd(U(ls), a), dvd(U(ls), v), dvd(U(ls), b), fast_err(x, a, v, ls), -10004 * U(ls) <= 10000 * (2 * b - a - v) <= 10000 * U(ls), sq_low(x * p(KK), U(ls), a)
    ensures b == a + U(ls), sq_up(x * p(KK), U(ls), a)
{
    lemma_U(ls); let u = U(ls); let w = u * u; let q = x * p(KK); let k = lemma_mult(u, a); let n = lemma_mult(u, v); let m = lemma_mult(u, b);
    lemma_sq_units(x, a, v, b, ls, k, n, m); lemma_sq_low_u(q, u, a, k);
    assert(m >= k + 1) by (nonlinear_arith) requires b == m * u, a == k * u, b > a, u > 0;
    assert(n >= k + 1);
    let kw = k * w; assert(kw >= w) by (nonlinear_arith) requires kw == k * w, k >= 1, w > 0;
    assert((k * k) * w + kw <= (n * k) * w) by (nonlinear_arith) requires n >= k + 1, k >= 1, w > 0, kw == k * w;
    assert(u * a == kw) by (nonlinear_arith) requires a == k * u, w == u * u, kw == k * w;
    assert(a * a == (k * k) * w) by (nonlinear_arith) requires a == k * u, w == u * u;
    let kkw = (k * k) * w;
    assert((100000000 * (k * k) + 150060000 * k + 56295009) * w == 100000000 * kkw + 150060000 * kw + 56295009 * w) by (nonlinear_arith) requires kkw == (k * k) * w, kw == k * w;
    if n >= k + 3 {
        assert(kkw + 3 * kw <= (n * k) * w) by (nonlinear_arith) requires n >= k + 3, k >= 1, w > 0, kw == k * w, kkw == (k * k) * w;
        assert(false);
    }
    assert(m == k + 1);
    assert(m * u == k * u + u) by (nonlinear_arith) requires m == k + 1;
}
// and the one after it goes nowhere or back
pub proof fn lemma_sq_back(x: int, c: int, a: int, v: int, b: int, ls: int)
    requires 0 <= ls <= 10008, a == c + U(ls), v >= 0, b >= 0, dvd(U(ls), v), dvd(U(ls), b), fast_err(x, a, v, ls), -10004 * U(ls) <= 10000 * (2 * b - a - v) <= 10000 * U(ls), sq_up(x * p(KK), U(ls), c)
    ensures b == a || b == c
{
    lemma_U(ls); let u = U(ls); let w = u * u; let q = x * p(KK); let k = lemma_mult(u, c); let n = lemma_mult(u, v); let m = lemma_mult(u, b); let j = k + 1;
    assert(a == j * u) by (nonlinear_arith) requires a == c + u, c == k * u, j == k + 1;
    lemma_sq_units(x, a, v, b, ls, j, n, m); lemma_sq_low_u(q, u, c, k);
    let kw = k * w; assert(kw >= w) by (nonlinear_arith) requires kw == k * w, k >= 1, w > 0;
    let kkw = (k * k) * w; assert(j * w == kw + w) by (nonlinear_arith) requires j == k + 1, kw == k * w;
    assert((100000000 * (k * k) + 150060000 * k + 56295009) * w == 100000000 * kkw + 150060000 * kw + 56295009 * w) by (nonlinear_arith) requires kkw == (k * k) * w, kw == k * w;
    assert(u * c == kw) by (nonlinear_arith) requires c == k * u, w == u * u, kw == k * w;
    assert(c * c == kkw) by (nonlinear_arith) requires c == k * u, w == u * u, kkw == (k * k) * w;
    let nj = (n * j) * w;
    if n >= k + 2 { assert(kkw + 3 * kw + 2 * w <= nj) by (nonlinear_arith) requires n >= k + 2, k >= 1, j == k + 1, w > 0, kw == k * w, kkw == (k * k) * w, nj == (n * j) * w; assert(false); }
    if n <= k - 2 { assert(nj <= kkw - kw - 2 * w) by (nonlinear_arith) requires n <= k - 2, k >= 1, j == k + 1, w > 0, kw == k * w, kkw == (k * k) * w, nj == (n * j) * w; assert(false); }
    assert(m == k || m == k + 1);
    assert(b == (if m == k { c } else { a }));
}
pub proof fn lemma_sqrt_fits(x: int, r: int, ds: int) requires 0 <= x < p(KK + 32768), r >= 0, 0 <= ds <= 1000, dvd(U(ds), r), sq_err(x, r, ds) ensures fits(r, ds)
{
    lemma_U(ds); let u = U(ds); lemma_ppos(KK); lemma_pmono(KK - 32767, KK - 250); lemma_pt(KK - 250); lemma_tmono(4 * (KK - 250), 4 * KK - ds);
    if r > 0 { let k = lemma_mult(u, r); assert(r >= u) by (nonlinear_arith) requires r == k * u, k >= 1, u >= 0; }
    let b = p(KK + 32768);
    if r >= b {
        lemma_pt(KK); lemma_tmono(4 * KK - ds, 4 * KK); lemma_pmono(KK, KK + 32768); lemma_pmono(KK + 1, KK + 32768); lemma_pS(KK + 1); 
        let a = 100000000 * r - 50000005 * u; assert(a >= 49999995 * r); let pp = p(KK); let z = x * pp;
        assert(a * a >= 2499999500000025int * (r * r)) by (nonlinear_arith) requires a >= 49999995 * r, r >= 0;
        assert(r * r >= r * b) by (nonlinear_arith) requires r >= b, r >= 0;
        assert(r * b >= b * b) by (nonlinear_arith) requires r >= b, b >= 0;
        assert(z <= b * pp) by (nonlinear_arith) requires z == x * pp, x < b, pp >= 0;
        assert(b >= 10000 * pp); assert(10000 * (b * pp) <= b * b) by (nonlinear_arith) requires b >= 10000 * pp, b >= 0;
        assert(b * b > 0) by (nonlinear_arith) requires b > 0;
        assert(false);
    }
}

pub proof fn lemma_nz(v: &NumericVar) requires v.st() ensures fnz(v) && v.ndigits > 0 ==> v.mag() > 0, v.ndigits == 0 ==> v.mag() == 0
{ lemma_nz0(v); if fnz(v) && v.ndigits > 0 { lemma_val_first(v.sd(), v.weight + KK); lemma_ppos(v.weight + KK); } }
pub proof fn lemma_nz0(v: &NumericVar) requires v.st() ensures v.ndigits == 0 ==> v.mag() == 0, v.mag() >= 0
{ lemma_val_bounds(v.sd(), v.weight + KK); if v.ndigits == 0 { lemma_val_empty(v.sd(), v.weight + KK); } }

// a root rounded to rs digits still starts with a nonzero digit, unless it is only a few units
pub proof fn lemma_sqrt_fnz(s: Seq<i16>, w: int, m9: int, w9: int, rs: int)
    requires digs(s), -8192 <= w9 <= 33030, w == w9 || w == w9 + 1 || s.len() == 0, 0 <= rs <= 10000, p(w9 + KK) <= m9, V(s, w) == roundm(m9, rs), s.len() > 0 && w == w9 + 1 ==> s[0] == 1
    ensures 10000 * U(rs) <= V(s, w) && s.len() > 0 ==> s[0] != 0, V(s, w) > 0 ==> s.len() > 0, U(rs) > 0
{
    lemma_U(rs); let u = U(rs); if s.len() == 0 { lemma_val_empty(s, w + KK); }
    if s.len() > 0 && s[0] == 0 && 10000 * u <= V(s, w) {
        assert(w == w9); lemma_ppos(w + KK); lemma_loS(s, w + KK, w + KK); lemma_lo_bounds(s, w + KK, w + KK); assert(at(s, 0) == 0); assert(V(s, w) < p(w + KK)) by { assert(0 * p(w + KK) == 0); }
        // so rounding went below p(w9), hence the unit is larger than p(w9)
        lemma_pt(w + KK); assert(p(w + KK) == t(4 * (w + KK)));
        if 4 * KK - rs <= 4 * (w + KK) { assert(p(w + KK) == t(4 * (w + KK)) && 4 * (w + KK) >= 4 * KK - rs); lemma_round_ge(m9, p(w + KK), rs); }
        else { lemma_tmono(4 * (w + KK), 4 * KK - rs); }
    }
}
pub proof fn lemma_round_ge(m: int, q: int, rs: int) requires 0 <= rs <= 99000, m >= q, dvd(U(rs), q) || (4 * KK - rs <= 4 * KK && exists|k: int| q == #[trigger] t(k) && k >= 4 * KK - rs) ensures roundm(m, rs) >= q
{
    lemma_U(rs); let u = U(rs);
    if !dvd(u, q) { let k = choose|k: int| q == #[trigger] t(k) && k >= 4 * KK - rs; lemma_t_dvd(4 * KK - rs, k); }
    lemma_dvd_i(u, q); let a = q / u; let b = (m + u / 2) / u;
    assert(b >= a) by (nonlinear_arith) requires m >= a * u, u > 0, b == (m + u / 2) / u;
    assert(b * u >= a * u) by (nonlinear_arith) requires b >= a, u > 0;
}
