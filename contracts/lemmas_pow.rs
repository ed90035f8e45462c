// ---------------------------------------------------------------- integer powers
pub open spec fn rpow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * rpow(x, (n - 1) as nat) } }
pub proof fn lemma_rpow_pos(x: real, n: nat) requires x > 0real ensures rpow(x, n) > 0real decreases n
{ if n > 0 { lemma_rpow_pos(x, (n - 1) as nat); let y = rpow(x, (n - 1) as nat); assert(x * y > 0real) by (nonlinear_arith) requires x > 0real, y > 0real; } }
pub proof fn lemma_rpow_add(x: real, a: nat, b: nat) ensures rpow(x, a + b) == rpow(x, a) * rpow(x, b) decreases a
{
    if a == 0 { let y = rpow(x, b); assert(1real * y == y); } else {
        lemma_rpow_add(x, (a - 1) as nat, b); let u = rpow(x, (a - 1) as nat); let v = rpow(x, b); assert((a - 1) as nat + b == (a + b - 1) as nat);
        assert(x * (u * v) == (x * u) * v) by (nonlinear_arith);
    }
}
pub proof fn lemma_rpow_prod(x: real, y: real, n: nat) ensures rpow(x * y, n) == rpow(x, n) * rpow(y, n) decreases n
{
    if n == 0 { assert(1real * 1real == 1real) by (nonlinear_arith); } else {
        lemma_rpow_prod(x, y, (n - 1) as nat); let u = rpow(x, (n - 1) as nat); let v = rpow(y, (n - 1) as nat);
        assert((x * y) * (u * v) == (x * u) * (y * v)) by (nonlinear_arith);
    }
}
pub proof fn lemma_rpow_mono(x: real, y: real, n: nat) requires 0real <= x <= y ensures 0real <= rpow(x, n) <= rpow(y, n) decreases n
{
    if n > 0 {
        lemma_rpow_mono(x, y, (n - 1) as nat); let u = rpow(x, (n - 1) as nat); let v = rpow(y, (n - 1) as nat);
        assert(0real <= x * u <= y * v) by (nonlinear_arith) requires 0real <= x <= y, 0real <= u <= v;
    }
}
pub proof fn lemma_rpow_ge1(x: real, a: nat, b: nat) requires x >= 1real, a <= b ensures 1real <= rpow(x, a) <= rpow(x, b) decreases b
{
    lemma_rpow_one(a); lemma_rpow_mono(1real, x, a);
    if a < b { lemma_rpow_ge1(x, a, (b - 1) as nat); let u = rpow(x, (b - 1) as nat); assert(x * u >= u) by (nonlinear_arith) requires x >= 1real, u >= 1real; }
}
pub proof fn lemma_rpow_le1(x: real, a: nat, b: nat) requires 0real < x <= 1real, a <= b ensures 0real < rpow(x, b) <= rpow(x, a) <= 1real decreases b
{
    lemma_rpow_one(a); lemma_rpow_mono(x, 1real, a); lemma_rpow_pos(x, b);
    if a < b { lemma_rpow_le1(x, a, (b - 1) as nat); let u = rpow(x, (b - 1) as nat); assert(x * u <= u) by (nonlinear_arith) requires x <= 1real, u > 0real; }
}
pub proof fn lemma_rpow_one(n: nat) ensures rpow(1real, n) == 1real decreases n { if n > 0 { lemma_rpow_one((n - 1) as nat); } }
pub proof fn lemma_rpow_1(x: real) ensures rpow(x, 1) == x, rpow(x, 0) == 1real, rpow(x, 2) == x * x { reveal_with_fuel(rpow, 3); assert(x * 1real == x); }
// (1 + d)^n and (1 - d)^n for n d <= 1/2
pub proof fn lemma_rpow_bern(d: real, n: nat) requires d >= 0real, 2real * (n as real * d) <= 1real
    ensures rpow(1real + d, n) <= 1real + 2real * (n as real * d), d <= 1real ==> rpow(1real - d, n) >= 1real - n as real * d, d <= 1real ==> rpow(1real - d, n) <= 1real, rpow(1real + d, n) >= 1real decreases n
{
    if n > 0 {
        let m = (n - 1) as nat; let md = m as real * d; assert(n as real * d == md + d) by (nonlinear_arith) requires n == m + 1, md == m as real * d;
        assert(md >= 0real) by (nonlinear_arith) requires md == m as real * d, d >= 0real, m >= 0;
        lemma_rpow_bern(d, m); let u = rpow(1real + d, m); let v = rpow(1real - d, m);
        assert((1real + d) * u <= (1real + d) * (1real + 2real * md)) by (nonlinear_arith) requires u <= 1real + 2real * md, d >= 0real;
        assert((1real + d) * (1real + 2real * md) == 1real + d + 2real * md + 2real * (d * md)) by (nonlinear_arith);
        assert(2real * (d * md) <= d) by (nonlinear_arith) requires 2real * md <= 1real, d >= 0real;
        assert((1real + d) * u >= 1real) by (nonlinear_arith) requires u >= 1real, d >= 0real;
        if d <= 1real {
            assert((1real - d) * v >= (1real - d) * (1real - md)) by (nonlinear_arith) requires v >= 1real - md, d <= 1real;
            assert((1real - d) * (1real - md) == 1real - d - md + d * md) by (nonlinear_arith);
            assert(d * md >= 0real) by (nonlinear_arith) requires d >= 0real, md >= 0real;
            assert((1real - d) * v <= 1real) by (nonlinear_arith) requires v <= 1real, 0real <= d <= 1real, v >= 1real - md, 2real * md <= 1real;
        }
    } else { assert(0real * d == 0real); }
}
// ---- powers of ten, values as real numbers
pub open spec fn r10(k: int) -> real { if k >= 0 { rpow(10real, k as nat) } else { 1real / rpow(10real, (-k) as nat) } }
pub open spec fn rval(m: int) -> real { m as real / p(KK) as real }
// x^n for an integer n (x > 0 if n < 0)
pub open spec fn rpwi(x: real, n: int) -> real { if n >= 0 { rpow(x, n as nat) } else { 1real / rpow(x, (-n) as nat) } }
pub proof fn lemma_r10_S(k: int) ensures r10(k + 1) == 10real * r10(k), r10(k) > 0real, r10(0) == 1real
{
    assert(rpow(10real, 0) == 1real);
    if k >= 0 { lemma_rpow_pos(10real, k as nat); assert((k + 1) as nat == (k as nat) + 1); } else {
        let y = rpow(10real, (-k) as nat); lemma_rpow_pos(10real, (-k) as nat); assert(((-k) as nat - 1) as nat == (-k - 1) as nat); let z = rpow(10real, (-k - 1) as nat); assert(y == 10real * z);
        lemma_rpow_pos(10real, (-k - 1) as nat);
        assert(1real / z == 10real * (1real / y)) by (nonlinear_arith) requires y == 10real * z, z > 0real; assert(1real / y > 0real) by (nonlinear_arith) requires y > 0real;
        if k == -1 { assert(z == 1real); assert(1real / z == 1real); } else { assert(r10(k + 1) == 1real / z); }
    }
}
pub proof fn lemma_r10_add(a: int, b: int) ensures r10(a + b) == r10(a) * r10(b) decreases (if b >= 0 { b } else { -b })
{
    if b == 0 { lemma_r10_S(a); assert(r10(a) * 1real == r10(a)); }
    else if b > 0 { lemma_r10_add(a, b - 1); lemma_r10_S(a + b - 1); lemma_r10_S(b - 1); let x = r10(a); let y = r10(b - 1); assert(10real * (x * y) == x * (10real * y)) by (nonlinear_arith); assert(a + b - 1 + 1 == a + b); assert(a + (b - 1) == a + b - 1); }
    else { lemma_r10_add(a, b + 1); lemma_r10_S(a + b); lemma_r10_S(b); let x = r10(a); let y = r10(b); let z = r10(a + b); assert(a + (b + 1) == a + b + 1); assert(z == x * y) by (nonlinear_arith) requires 10real * z == x * (10real * y); }
}
pub proof fn lemma_r10_mono(a: int, b: int) requires a <= b ensures r10(a) <= r10(b), r10(a) > 0real decreases b - a
{ lemma_r10_S(a); if a < b { lemma_r10_mono(a, b - 1); lemma_r10_S(b - 1); assert(b - 1 + 1 == b); } }
pub proof fn lemma_rval_lin(a: int, b: int) ensures a <= b ==> rval(a) <= rval(b), a < b ==> rval(a) < rval(b), rval(a - b) == rval(a) - rval(b), rval(a + b) == rval(a) + rval(b), a >= 0 ==> rval(a) >= 0real, a > 0 ==> rval(a) > 0real, rval(0) == 0real
{
    lemma_ppos(KK); let q = p(KK) as real; let x = a as real; let y = b as real;
    assert(x <= y ==> x / q <= y / q) by (nonlinear_arith) requires q > 0real; assert(x < y ==> x / q < y / q) by (nonlinear_arith) requires q > 0real; assert(x >= 0real ==> x / q >= 0real) by (nonlinear_arith) requires q > 0real; assert(x > 0real ==> x / q > 0real) by (nonlinear_arith) requires q > 0real;
    assert((x - y) / q == x / q - y / q) by (nonlinear_arith) requires q > 0real; assert((x + y) / q == x / q + y / q) by (nonlinear_arith) requires q > 0real; assert(0real / q == 0real) by (nonlinear_arith) requires q > 0real;
}
pub proof fn lemma_rval_t(j: int) requires -4 * KK <= j ensures rval(t(4 * KK + j)) == r10(j), t(4 * KK + j) > 0 decreases (if j >= 0 { j } else { -j })
{
    lemma_ppos(KK); lemma_pt(KK); lemma_r10_S(0); lemma_tpos(4 * KK + j); let q = p(KK) as real;
    if j == 0 { assert(q / q == 1real) by (nonlinear_arith) requires q > 0real; }
    else if j > 0 { lemma_rval_t(j - 1); lemma_tS(4 * KK + j); lemma_r10_S(j - 1); let x = t(4 * KK + j - 1) as real; assert((10real * x) / q == 10real * (x / q)) by (nonlinear_arith) requires q > 0real; assert(t(4 * KK + j) as real == 10real * x); }
    else { lemma_rval_t(j + 1); lemma_tS(4 * KK + j + 1); lemma_r10_S(j); let x = t(4 * KK + j) as real; assert((10real * x) / q == 10real * (x / q)) by (nonlinear_arith) requires q > 0real; assert(t(4 * KK + j + 1) as real == 10real * x); }
}
pub proof fn lemma_rval_U(ds: int) requires -4 * KK <= ds <= 4 * KK ensures rval(U(ds)) == r10(-ds), U(ds) > 0 { lemma_rval_t(-ds); }
pub proof fn lemma_rval_p(w: int) requires -KK <= w ensures rval(p(w + KK)) == r10(4 * w) { lemma_pt(w + KK); lemma_rval_t(4 * w); }
// ---- one multiplication
pub proof fn lemma_cast_mul(a: int, b: int) ensures (a * b) as real == (a as real) * (b as real)
{ let x = a as real; let y = b as real; assert((a * b) as real == x * y) by (nonlinear_arith) requires x == a as real, y == b as real; }
pub proof fn lemma_cast_le(a: int, b: int, d: int) requires 20000 * d >= -(a * b) ensures 20000real * (d as real) >= -((a as real) * (b as real)) { lemma_cast_mul(a, b); }
pub proof fn lemma_near_aux(x: int, y: int, r: int, u0: int, p0: int, cc: int) requires p0 > 0, 2 * (r * p0 - x * y) <= u0 * p0, 20000 * (r * p0 - x * y) >= -(cc * (u0 * p0))
    ensures ({ let q = p0 as real; let e = (r as real) / q - ((x as real) / q) * ((y as real) / q); let v = (u0 as real) / q; &&& 2real * e <= v &&& 20000real * e >= -((cc as real) * v) })
{
    let q = p0 as real; let a = x as real; let b = y as real; let c = r as real; let u = u0 as real; let k = cc as real;
    lemma_cast_mul(r, p0); lemma_cast_mul(x, y); lemma_cast_mul(u0, p0); lemma_cast_le(cc, u0 * p0, r * p0 - x * y);
    let dr = c * q - a * b; let ur = u * q; assert(2real * dr <= ur); assert(20000real * dr >= -(k * ur));
    let e = c / q - (a / q) * (b / q); 
    assert(dr == e * (q * q)) by (nonlinear_arith) requires e == c / q - (a / q) * (b / q), dr == c * q - a * b, q > 0real;
    let v = u / q; assert(ur == v * (q * q)) by (nonlinear_arith) requires v == u / q, ur == u * q, q > 0real;
    let qq = q * q; assert(qq > 0real) by (nonlinear_arith) requires q > 0real, qq == q * q;
    assert(2real * e <= v) by (nonlinear_arith) requires 2real * (e * qq) <= v * qq, qq > 0real;
    assert(k * (v * qq) == (k * v) * qq) by (nonlinear_arith); let kv = k * v;
    assert(20000real * e >= -kv) by (nonlinear_arith) requires 20000real * (e * qq) >= -(kv * qq), qq > 0real;
}
pub proof fn lemma_near_real(x: int, y: int, r: int, rs: int, n: int, cc: int) requires mul_near(x, y, r, rs, n), 0 <= rs <= 99000, cc == 10002 + 2 * n
    ensures 2real * (rval(r) - rval(x) * rval(y)) <= r10(-rs), 20000real * (rval(r) - rval(x) * rval(y)) >= -((cc as real) * r10(-rs))
{ lemma_rval_U(rs); lemma_ppos(KK); lemma_near_aux(x, y, r, U(rs), p(KK), cc); }
pub proof fn lemma_pow_rel(x: real, y: real, r: real, wa: int, wb: int, s: int, ls: int, cc: int)
    requires x >= r10(4 * wa), y >= r10(4 * wb), cc <= 98000, cc >= 0, r == x * y || ls >= s - 4 * (wa + wb) && 2real * (r - x * y) <= r10(-ls) && 20000real * (r - x * y) >= -((cc as real) * r10(-ls))
    ensures x > 0real, y > 0real, x * y > 0real, (x * y) * (1real - 5real * r10(-s)) <= r <= (x * y) * (1real + 5real * r10(-s))
{
    let a = r10(4 * wa); let b = r10(4 * wb); lemma_r10_S(4 * wa); lemma_r10_S(4 * wb); lemma_r10_S(-s); let z = r10(-s); let m = x * y;
    assert(m >= a * b && a * b > 0real) by (nonlinear_arith) requires m == x * y, x >= a, y >= b, a > 0real, b > 0real;
    assert(m * (1real - 5real * z) == m - 5real * (m * z)) by (nonlinear_arith); assert(m * (1real + 5real * z) == m + 5real * (m * z)) by (nonlinear_arith);
    let mz = m * z; assert(mz > 0real) by (nonlinear_arith) requires mz == m * z, m > 0real, z > 0real;
    if r != m {
        lemma_r10_add(4 * wa, 4 * wb); lemma_r10_add(-s, 4 * (wa + wb)); lemma_r10_mono(-ls, -s + 4 * (wa + wb)); let v = r10(-ls);
        let w = r10(4 * (wa + wb)); assert(w == a * b); assert(z * w <= mz) by (nonlinear_arith) requires mz == m * z, m >= w, z > 0real;
        assert(v <= mz); let c = cc as real; assert(c * v <= 98000real * v) by (nonlinear_arith) requires c <= 98000real, v > 0real;
    }
}
pub open spec fn inb(y: real, x: real, j: nat, e: nat, d: real) -> bool { rpow(x, j) * rpow(1real - d, e) <= y <= rpow(x, j) * rpow(1real + d, e) }
pub proof fn lemma_inb_mul(u: real, v: real, r: real, x: real, i: nat, j: nat, e: nat, f: nat, d: real)
    requires x > 0real, 0real <= d < 1real, inb(u, x, i, e, d), inb(v, x, j, f, d), (u * v) * (1real - d) <= r <= (u * v) * (1real + d)
    ensures inb(r, x, i + j, e + f + 1, d), u > 0real, v > 0real, r > 0real
{
    lemma_rpow_add(x, i, j); let g = 1real - d; let h = 1real + d; lemma_rpow_add(g, e, f); lemma_rpow_add(h, e, f); assert((e + f + 1 - 1) as nat == e + f);
    let a = rpow(x, i); let b = rpow(x, j); let ge = rpow(g, e); let gf = rpow(g, f); let he = rpow(h, e); let hf = rpow(h, f);
    lemma_rpow_pos(x, i); lemma_rpow_pos(x, j); lemma_rpow_pos(g, e); lemma_rpow_pos(g, f); lemma_rpow_pos(h, e); lemma_rpow_pos(h, f);
    assert(a * ge > 0real && b * gf > 0real) by (nonlinear_arith) requires a > 0real, ge > 0real, b > 0real, gf > 0real;
    let ul = a * ge; let vl = b * gf; let uh = a * he; let vh = b * hf;
    assert(ul * vl <= u * v <= uh * vh) by (nonlinear_arith) requires 0real < ul <= u, 0real < vl <= v, u <= uh, v <= vh;
    assert(ul * vl == (a * b) * (ge * gf)) by (nonlinear_arith) requires ul == a * ge, vl == b * gf; assert(uh * vh == (a * b) * (he * hf)) by (nonlinear_arith) requires uh == a * he, vh == b * hf;
    let m = u * v; let ab = a * b; let gg = ge * gf; let hh = he * hf;
    assert(ab * (g * gg) <= m * g) by (nonlinear_arith) requires ab * gg <= m, g > 0real; assert(ab * (h * hh) >= m * h) by (nonlinear_arith) requires ab * hh >= m, h > 0real;
    assert(m > 0real && m * g > 0real) by (nonlinear_arith) requires m >= ul * vl, ul > 0real, vl > 0real, g > 0real;
}
pub proof fn lemma_inb_one(x: real, d: real) requires x > 0real ensures inb(1real, x, 0, 0, d), inb(x, x, 1, 1, 0real), inb(x, x, 1, 0, d)
{ lemma_rpow_1(x); lemma_rpow_1(1real); assert(rpow(1real - d, 0) == 1real); assert(rpow(1real + d, 0) == 1real); assert(1real * 1real == 1real) by (nonlinear_arith); assert(x * 1real == x); }
// one more inaccuracy allowed
pub proof fn lemma_inb_up(y: real, x: real, j: nat, e: nat, f: nat, d: real) requires x > 0real, 0real <= d < 1real, inb(y, x, j, e, d), e <= f ensures inb(y, x, j, f, d)
{
    lemma_rpow_le1(1real - d, e, f); lemma_rpow_ge1(1real + d, e, f); lemma_rpow_pos(x, j); let a = rpow(x, j); let b = rpow(1real - d, e); let c = rpow(1real - d, f); let g = rpow(1real + d, e); let h = rpow(1real + d, f);
    assert(a * c <= a * b && a * g <= a * h) by (nonlinear_arith) requires a > 0real, c <= b, g <= h;
}
// all the powers up to N lie between the extremes
pub proof fn lemma_pow_mid(x: real, j: nat, n: nat, k: int) requires x > 0real, j <= n, k >= 0, r10(-k) <= rpow(x, n) <= r10(k) ensures r10(-k) <= rpow(x, j) <= r10(k)
{ lemma_r10_mono(-k, 0); lemma_r10_mono(0, k); lemma_r10_S(0); lemma_rpow_1(x); if x >= 1real { lemma_rpow_ge1(x, j, n); lemma_rpow_ge1(x, 0, j); } else { lemma_rpow_le1(x, j, n); lemma_rpow_le1(x, 0, j); } }
pub proof fn lemma_inb_range(y: real, x: real, j: nat, e: nat, n: nat, d: real, k: int)
    requires x > 0real, 0real <= d <= 1real / 100real, j <= n, e <= n, n as real * d <= 1real / 4real, k >= 0, r10(-k) <= rpow(x, n) <= r10(k), inb(y, x, j, e, d)
    ensures r10(-k - 1) <= y <= r10(k + 1), y > 0real
{
    lemma_pow_mid(x, j, n, k); assert(e as real * d <= n as real * d) by (nonlinear_arith) requires e <= n, d >= 0real; lemma_rpow_bern(d, e);
    lemma_r10_S(-k - 1); lemma_r10_S(k); lemma_r10_S(-k); let a = rpow(x, j); let b = rpow(1real - d, e); let c = rpow(1real + d, e); lemma_rpow_pos(x, j);
    assert(a * b >= a / 10real && a * c <= 10real * a) by (nonlinear_arith) requires a > 0real, b >= 1real / 10real, c <= 10real;
}
// ---- logarithms
pub proof fn lemma_lg_pow(x: real, n: nat) requires x > 0real ensures lg(rpow(x, n)) == n as real * lg(x), lg(1real) == 0real decreases n
{
    ax_lg(1real, 1real); assert(1real * 1real == 1real) by (nonlinear_arith); let l = lg(x);
    if n == 0 { assert(0real * l == 0real); } else {
        let m = (n - 1) as nat; lemma_lg_pow(x, m); lemma_rpow_pos(x, m); ax_lg(x, rpow(x, m)); let a = n as real; let b = m as real; assert(a * l == l + b * l) by (nonlinear_arith) requires a == b + 1real;
    }
}
pub proof fn lemma_lg_inv(x: real) requires x > 0real ensures lg(1real / x) == -lg(x), 1real / x > 0real
{ let y = 1real / x; assert(x * y == 1real && y > 0real) by (nonlinear_arith) requires y == 1real / x, x > 0real; ax_lg(x, y); lemma_lg_pow(x, 0); }
pub proof fn lemma_lg_r10(k: int) ensures lg(r10(k)) == k as real
{
    ax_lg(10real, 10real);
    if k >= 0 { lemma_lg_pow(10real, k as nat); } else { let n = (-k) as nat; lemma_lg_pow(10real, n); lemma_rpow_pos(10real, n); lemma_lg_inv(rpow(10real, n)); }
}
pub proof fn lemma_lg_lt(x: real, k: int) requires x > 0real ensures lg(x) < k as real ==> x < r10(k), lg(x) > k as real ==> x > r10(k), x <= r10(k) ==> lg(x) <= k as real, x >= r10(k) ==> lg(x) >= k as real
{ lemma_lg_r10(k); lemma_r10_S(k); ax_lg(r10(k), x); ax_lg(x, r10(k)); }
pub proof fn lemma_lg_powi(x: real, n: int) requires x > 0real ensures lg(rpwi(x, n)) == n as real * lg(x), rpwi(x, n) > 0real
{
    let l = lg(x);
    if n >= 0 { lemma_lg_pow(x, n as nat); lemma_rpow_pos(x, n as nat); } else { let m = (-n) as nat; lemma_lg_pow(x, m); lemma_rpow_pos(x, m); lemma_lg_inv(rpow(x, m)); let a = m as real; let b = n as real; assert(b * l == -(a * l)) by (nonlinear_arith) requires b == -a; }
}
// two numbers within 25e-12 of each other have logarithms within 5e-11
pub proof fn lemma_lg_step() ensures lg(1real + 25real / 1000000000000real) <= 5real / 100000000000real, lg(1real + 25real / 1000000000000real) >= 0real
{
    let d = 25real / 1000000000000real; let n: nat = 20000000000; lemma_rpow_bern(d, n); let u = rpow(1real + d, n); lemma_lg_pow(1real + d, n); ax_lg(u, 10real); ax_lg(1real, 1real + d);
}
pub proof fn lemma_lg_close(x: real, y: real) requires y > 0real, 1000000000000real * rabs(x - y) <= 24real * y ensures x > 0real, rabs(lg(x) - lg(y)) <= 5real / 100000000000real
{
    let g = 1real + 25real / 1000000000000real; lemma_lg_step();
    ax_lg(x, g); ax_lg(y, g); let xg = x * g; let yg = y * g;
    assert(x <= yg) by (nonlinear_arith) requires 1000000000000real * (x - y) <= 24real * y, y > 0real, yg == y * g, g == 1real + 25real / 1000000000000real;
    assert(y <= xg) by (nonlinear_arith) requires 1000000000000real * (y - x) <= 24real * y, y > 0real, xg == x * g, g == 1real + 25real / 1000000000000real;
    assert(xg > 0real && yg > 0real) by (nonlinear_arith) requires xg == x * g, yg == y * g, g > 0real, x > 0real, y > 0real;
    ax_lg(x, yg); ax_lg(y, xg);
}
// ---- the estimate of the result's size
pub proof fn lemma_hs_val(s: Seq<i16>, k: int) requires 0 <= k ensures hs(s, k) == val(s, k - 1) decreases k
{ if k > 0 { lemma_hs_val(s, k - 1); lemma_val_step(s, k - 1); } else { lemma_lo0(s, -1, 0); } }
pub proof fn lemma_pow_head(s: Seq<i16>, w: int, k: int)
    requires digs(s), s.len() >= 1, s[0] > 0, k == imin(s.len() as int, 4), -98000 <= w <= 98000, s.len() - 1 - w <= 99000
    ensures ({ let h = hs(s, k) as real; let u = r10(4 * (w - k + 1)); let x = rval(V(s, w)); &&& h * u <= x <= (h + 1real) * u &&& (s.len() <= 4 ==> x == h * u) &&& u > 0real }), p(k - 1) <= hs(s, k) < p(k),
        r10(4 * w) <= rval(V(s, w)) < r10(4 * w + 4)
{
    let top = w + KK; let c = top + 1 - k; lemma_val_cut(s, top, k); lemma_hs_val(s, k); lemma_lo_bounds(s, top, c); let h = hs(s, k); let l = lo(s, top, c); let pc = p(c);
    lemma_val_first(s, k - 1); lemma_val_bounds(s, k - 1); assert(c == (w + 1 - k) + KK); lemma_rval_p(w + 1 - k); lemma_ppos(c); lemma_r10_S(4 * (w + 1 - k));
    assert(V(s, w) == h * pc + l);
    lemma_rval_lin(h * pc, l); lemma_rval_lin(0, l); lemma_rval_lin(l, pc); lemma_rval_mul(h, pc); let u = r10(4 * (w - k + 1)); let hr = h as real; assert((hr + 1real) * u == hr * u + u) by (nonlinear_arith);
    if s.len() <= 4 { lemma_val_shift(s, k - 1, c); assert(top == k - 1 + c); lemma_hs_val(s, k); assert(l == 0); }
    lemma_val_first(s, top); lemma_val_bounds(s, top); lemma_rval_p(w); lemma_rval_p(w + 1); lemma_rval_lin(p(w + KK), V(s, w)); lemma_rval_lin(V(s, w), p(w + 1 + KK));
}
pub proof fn lemma_rval_mul(h: int, m: int) ensures rval(h * m) == (h as real) * rval(m)
{ lemma_cast_mul(h, m); lemma_ppos(KK); let q = p(KK) as real; let a = h as real; let b = m as real; assert((a * b) / q == a * (b / q)) by (nonlinear_arith) requires q > 0real; }
pub proof fn lemma_pow_est1(s: Seq<i16>, w: int, k: int, f: real)
    requires digs(s), s.len() >= 1, s[0] > 0, k == imin(s.len() as int, 4), -98000 <= w <= 98000, s.len() - 1 - w <= 99000, rabs(f - hs(s, k) as real) <= fd(k)
    ensures 1real <= f <= 100000000000000000real, rabs(lg(rval(V(s, w))) - (lg(f) + (4 * (w - k + 1)) as real)) <= 5real / 100000000000real
{
    lemma_pow_head(s, w, k); lemma_p0(); lemma_pS(3); lemma_pS(4); let h = hs(s, k); let hr = h as real; let u = r10(4 * (w - k + 1)); let x = rval(V(s, w)); let y = x / u;
    assert(y * u == x) by (nonlinear_arith) requires y == x / u, u > 0real;
    assert(hr <= y <= hr + 1real) by (nonlinear_arith) requires hr * u <= y * u <= (hr + 1real) * u, u > 0real;
    if s.len() <= 4 { assert(y == hr) by (nonlinear_arith) requires y * u == hr * u, u > 0real; }
    assert(k == 1 || k == 2 || k == 3 || k == 4); assert(f > 0real);
    lemma_lg_close(y, f); ax_lg(y, u); lemma_lg_r10(4 * (w - k + 1));
}
pub proof fn lemma_pow_est2(lx: real, lf: real, g1: real, pp: int, g2: real, e: int)
    requires rabs(lx - (lf + pp as real)) <= 5real / 100000000000real, rabs(g1 - lf) * 100000000000000real <= 1real, near(g2, g1 + pp as real), -2147483648 <= e <= 2147483647, -500000 <= pp <= 500000, 0real <= lf <= 17real
    ensures fsafe((e as real) * g2), rabs((e as real) * g2 - (e as real) * lx) <= 11real / 100real + rabs((e as real) * lx) / 8000000000000000real
{
    let a = e as real; let d = g2 - lx; let t30 = 1real / 1000000000000000000000000000000real;
    let b = rabs(lx) / 8500000000000000real + 5002real / 100000000000000real;
    assert(rabs(d) <= b);
    lemma_rabs_mul(a, d); lemma_rabs_mul(a, lx); lemma_rabs_mul(a, g2); assert(a * d == a * g2 - a * lx) by (nonlinear_arith) requires d == g2 - lx;
    let ra = rabs(a); let rl = rabs(lx); let rd = rabs(d);
    assert(ra * rd <= ra * b) by (nonlinear_arith) requires ra >= 0real, rd <= b;
    assert(ra * b == (ra * rl) / 8500000000000000real + ra * (5002real / 100000000000000real)) by (nonlinear_arith) requires b == rl / 8500000000000000real + 5002real / 100000000000000real;
    let rg = rabs(g2); assert(ra * rg <= 2147483648real * 600000real) by (nonlinear_arith) requires 0real <= ra <= 2147483648real, 0real <= rg <= 600000real;
}
pub open spec fn est_ok(f: real, l: real) -> bool { rabs(f - l) <= 12real / 100real + rabs(l) / 1000000000real }
pub proof fn lemma_pow_est3(m: real, l: real, f: real) requires rabs(m - l) <= 11real / 100real + rabs(l) / 8000000000000000real, near(f, m) ensures est_ok(f, l) { }
// what the two early exits and the rest conclude from the estimate
pub proof fn lemma_pow_exit(f: real, l: real, rs: int, f1: real)
    requires est_ok(f, l), -2000000000000000real <= l <= 30000real, 16 <= rs <= 1000, near(f1, f + 1real)
    ensures f <= 30001real, fsafe(f + 1real), f1 < -rs as real ==> l < -rs as real - 8real / 10real, f1 < -1000real ==> l < -rs as real - 8real / 10real, f1 >= -rs as real ==> f >= -rs as real - 101real / 100real && l >= -rs as real - 12real / 10real && rabs(l - f) <= 13real / 100real
{ }
pub open spec fn tr(f: real, i: int) -> bool { (f >= 0real ==> i as real <= f < i as real + 1real) && (f <= 0real ==> i as real >= f > i as real - 1real) }
pub proof fn lemma_r10_10() ensures r10(10) == 10000000000real, r10(-1) == 1real / 10real, r10(1) == 10real, r10(3) == 1000real, r10(5) == 100000real, r10(-6) == 1real / 1000000real, r10(-5) == 1real / 100000real { reveal_with_fuel(rpow, 11); }
pub proof fn lemma_pow_ln(n: int, r: real, l: int) requires 2 <= n <= 2147483648, rabs(1000000real * r - 2302585real * lg(n as real)) <= 1000real, tr(r, l) ensures 0 <= l <= 25, n as real <= r10(l + 1)
{ let x = n as real; lemma_r10_10(); lemma_lg_lt(x, 10); lemma_lg_lt(x, 0); lemma_r10_S(0); lemma_lg_lt(x, l + 1); }
pub proof fn lemma_ln_range(r: real, n: int) requires 2 <= n <= 2147483648, rabs(1000000real * r - 2302585real * lg(n as real)) <= 1000real ensures -1real <= r <= 26real
{ let x = n as real; lemma_r10_10(); lemma_lg_lt(x, 10); lemma_lg_lt(x, 0); lemma_r10_S(0); }
pub proof fn lemma_pow_par(v: real, f: real, rs: int, fi: int, n: int, l: int, s: int)
    requires v > 0real, rabs(lg(v) - f) <= 13real / 100real, -rs as real - 101real / 100real <= f <= 30001real, tr(f, fi), 16 <= rs <= 1000, n >= 2, n as real <= r10(l + 1), 0 <= l <= 25, s == 9 + rs + fi + l
    ensures r10(-rs - 2) < v < r10(fi + 2), 8 + l <= s <= 31036, 0real < 5real * r10(-s) <= 1real / 100real, n as real * (5real * r10(-s)) <= 1real / 100real, v * (n as real * (5real * r10(-s))) <= r10(-rs) / 100000real
{
    lemma_lg_lt(v, fi + 2); lemma_lg_lt(v, -rs - 2); assert(fi >= -rs - 1);
    lemma_r10_add(l + 1, -s); lemma_r10_mono(l + 1 - s, -6); lemma_r10_10(); lemma_r10_mono(-s, -6);
    let z = r10(-s); let m = n as real; let c = r10(l + 1); let nd = m * (5real * z); lemma_r10_S(-s);
    assert(nd <= 5real * (c * z)) by (nonlinear_arith) requires nd == m * (5real * z), m <= c, z > 0real;
    lemma_r10_add(fi + 2, l + 1 - s); let a = r10(fi + 2); let b = c * z; assert(fi + 2 + l + 1 - s == -rs + (-6)); lemma_r10_add(-rs, -6); let q = r10(l + 1 - s); assert(q == b); let xx = r10(-rs); let y6 = r10(-6); lemma_r10_S(-rs); assert(xx * y6 == xx / 1000000real) by (nonlinear_arith) requires y6 == 1real / 1000000real; assert(r10(fi + 2 + (l + 1 - s)) == xx * y6);
    assert(nd >= 0real) by (nonlinear_arith) requires nd == m * (5real * z), m > 0real, z > 0real; let g = r10(fi + 2 + (l + 1 - s));
    assert(v * nd <= a * (5real * q)) by (nonlinear_arith) requires 0real < v <= a, 0real <= nd <= 5real * q; assert(a * (5real * q) == 5real * (a * q)) by (nonlinear_arith);
}
// the product of the multiplications against the power, and its reciprocal
pub proof fn lemma_pow_fin(r: real, x: real, n: nat, e: nat, d: real)
    requires x > 0real, 0real < d <= 1real / 100real, n as real * d <= 1real / 100real, e <= n, inb(r, x, n, e, d)
    ensures r > 0real, rabs(r - rpow(x, n)) <= 2real * (rpow(x, n) * (n as real * d)), rabs(1real / r - 1real / rpow(x, n)) <= 4real * ((1real / rpow(x, n)) * (n as real * d))
{
    let nd = n as real * d; let ed = e as real * d; assert(0real <= ed <= nd) by (nonlinear_arith) requires e <= n, d > 0real, nd == n as real * d, ed == e as real * d; lemma_rpow_bern(d, e); lemma_rpow_pos(x, n);
    let a = rpow(x, n); let b = rpow(1real - d, e); let c = rpow(1real + d, e);
    assert(a * b >= a - a * nd && a * c <= a + 2real * (a * nd)) by (nonlinear_arith) requires a > 0real, b >= 1real - nd, c <= 1real + 2real * nd;
    let k = a * nd; assert(0real <= k <= a / 100real) by (nonlinear_arith) requires k == a * nd, 0real <= nd <= 1real / 100real, a > 0real;
    let i = 1real / r; let j = 1real / a; assert(i * r == 1real && i > 0real) by (nonlinear_arith) requires i == 1real / r, r > 0real; assert(j * a == 1real && j > 0real) by (nonlinear_arith) requires j == 1real / a, a > 0real;
    // i - j = i j (a - r)
    assert(i - j == (i * j) * (a - r)) by (nonlinear_arith) requires i * r == 1real, j * a == 1real;
    assert(i <= 2real * j) by (nonlinear_arith) requires i * r == 1real, j * a == 1real, r >= a - a / 100real, a > 0real, j > 0real, i > 0real;
    let ij = i * j; assert(0real <= ij <= 2real * (j * j)) by (nonlinear_arith) requires ij == i * j, 0real < i <= 2real * j, j > 0real;
    lemma_rabs_mul(ij, a - r); let g = rabs(a - r); let jj = j * j;
    assert(ij * g <= (2real * jj) * (2real * k)) by (nonlinear_arith) requires 0real <= ij <= 2real * jj, 0real <= g <= 2real * k;
    assert((2real * jj) * (2real * k) == 4real * (j * nd)) by (nonlinear_arith) requires jj == j * j, k == a * nd, j * a == 1real;
}
pub proof fn lemma_round_real(m: int, rs: int) requires 0 <= rs <= 99000 ensures rabs(rval(roundm(m, rs)) - rval(m)) <= r10(-rs) / 2real
{ lemma_round_near(m, rs); lemma_rval_U(rs); let r = roundm(m, rs); lemma_rval_lin(r, m); lemma_rval_mul(2, r - m); lemma_rval_lin(2 * (r - m), U(rs)); lemma_rval_lin(-U(rs), 2 * (r - m)); lemma_rval_lin(0, U(rs)); }
pub proof fn lemma_fast_real(y: int, r: int, rs: int) requires y > 0, 0 <= rs <= 99000, fast_err(p(KK), y, r, rs) ensures rabs(rval(r) - 1real / rval(y)) <= (50000000002real / 100000000000real) * r10(-rs)
{ lemma_rval_U(rs); lemma_ppos(KK); lemma_fast_aux(y, r, U(rs), p(KK)); }
pub proof fn lemma_fast_aux(y: int, r: int, u0: int, p0: int) requires p0 > 0, y > 0, -(50000000002 * (u0 * y)) <= 100000000000 * (r * y - p0 * p0) <= 50000000002 * (u0 * y)
    ensures rabs((r as real) / (p0 as real) - 1real / ((y as real) / (p0 as real))) <= (50000000002real / 100000000000real) * ((u0 as real) / (p0 as real))
{
    let q = p0 as real; let b = y as real; let c = r as real; let u = u0 as real; lemma_cast_mul(r, y); lemma_cast_mul(p0, p0); lemma_cast_mul(u0, y);
    let dr = c * b - q * q; let ur = u * b; assert(-(50000000002real * ur) <= 100000000000real * dr <= 50000000002real * ur);
    let yy = b / q; assert(yy > 0real && yy * q == b) by (nonlinear_arith) requires yy == b / q, q > 0real, b > 0real; let inv = 1real / yy; assert(inv * yy == 1real) by (nonlinear_arith) requires inv == 1real / yy, yy > 0real;
    let e = c / q - inv; let v = u / q; let qb = q * b; assert(qb > 0real) by (nonlinear_arith) requires qb == q * b, q > 0real, b > 0real;
    let cq = c / q; assert(cq * q == c) by (nonlinear_arith) requires cq == c / q, q > 0real; assert(v * q == u) by (nonlinear_arith) requires v == u / q, q > 0real;
    assert(inv * b == q) by (nonlinear_arith) requires inv * yy == 1real, yy * q == b;
    assert(e * qb == dr) by (nonlinear_arith) requires e == cq - inv, qb == q * b, cq * q == c, inv * b == q, dr == c * b - q * q;
    assert(ur == v * qb) by (nonlinear_arith) requires ur == u * b, v * q == u, qb == q * b;
    assert(100000000000real * e <= 50000000002real * v) by (nonlinear_arith) requires 100000000000real * (e * qb) <= 50000000002real * (v * qb), qb > 0real;
    assert(100000000000real * e >= -(50000000002real * v)) by (nonlinear_arith) requires 100000000000real * (e * qb) >= -(50000000002real * (v * qb)), qb > 0real;
}
// ---- the loop: a working number that stands for x^j up to e relative errors of size d
pub open spec fn pw_rep(v: &NumericVar, x: real, j: nat, e: nat, d: real) -> bool
{ v.st() && v.norm() && v.ndigits > 0 && v.dscale <= 99000 && dvd(U(v.dscale as int), v.mag()) && inb(rval(v.mag()), x, j, e, d) }
pub open spec fn pw_par(x: real, n: nat, d: real, s: int) -> bool
{ x > 0real && n >= 2 && 8 <= s <= 31036 && d == 5real * r10(-s) && 0real < d <= 1real / 100real && n as real * d <= 1real / 100real && r10(-30000) <= rpow(x, n) <= r10(30000) }
pub proof fn lemma_pw_sz(v: &NumericVar, x: real, j: nat, e: nat, d: real, n: nat, s: int) requires pw_rep(v, x, j, e, d), pw_par(x, n, d, s), j <= n, e <= n
    ensures -7501 <= v.weight <= 7500, v.ndigits - 1 - v.weight <= (v.dscale + 3) / 4, v.mag() > 0, rval(v.mag()) >= r10(4 * v.weight), v.mag() == V(v.sd(), v.weight as int), v.sd()[0] > 0
{
    let m = v.mag(); let w = v.weight as int; let sd = v.sd(); lemma_inb_range(rval(m), x, j, e, n, d, 30000); lemma_norm_frac(sd, w, v.dscale as int); lemma_val_first(sd, w + KK); lemma_ppos(w + KK); lemma_val_bounds(sd, w + KK);
    lemma_rval_p(w); lemma_rval_p(w + 1); lemma_rval_lin(p(w + KK), m); lemma_rval_lin(m, p(w + 1 + KK));
    if w > 7500 { lemma_r10_mono(30002, 4 * w); lemma_r10_S(30001); } if w < -7501 { lemma_r10_mono(4 * w + 4, -30002); lemma_r10_S(-30002); }
}
pub proof fn lemma_pw_pre(a: &NumericVar, b: &NumericVar, x: real, i: nat, j: nat, e: nat, f: nat, d: real, n: nat, s: int, ls: int)
    requires pw_rep(a, x, i, e, d), pw_rep(b, x, j, f, d), pw_par(x, n, d, s), i <= n, j <= n, e <= n, f <= n, ls == imax(imin(s - 4 * (a.weight + b.weight), a.dscale + b.dscale), 0)
    ensures mul_sz(a, b, ls), 0 <= ls <= 99000, -7501 <= a.weight <= 7500, -7501 <= b.weight <= 7500
{ lemma_pw_sz(a, x, i, e, d, n, s); lemma_pw_sz(b, x, j, f, d, n, s); }
pub proof fn lemma_mul_units(a: int, b: int, da: int, db: int) requires 0 <= da <= 99000, 0 <= db <= 99000, dvd(U(da), a), dvd(U(db), b), a >= 0, b >= 0 ensures roundm(mulm(a, b), da + db) == mulm(a, b), mulm(a, b) * p(KK) == a * b
{
    let ds = da + db; lemma_ppos(KK); lemma_pt(KK); lemma_tadd(4 * KK - da, 4 * KK - db); lemma_tadd(4 * KK - ds, 4 * KK); lemma_tpos(4 * KK - da); lemma_tpos(4 * KK - db); lemma_tpos(4 * KK - ds);
    let u = U(da); let v = U(db); let w = U(ds); let k = lemma_mult(u, a); let l = lemma_mult(v, b); let q = p(KK); assert(u * v == w * q);
    let m = k * l; assert(a * b == (m * w) * q) by (nonlinear_arith) requires a == k * u, b == l * v, u * v == w * q, m == k * l;
    vstd::arithmetic::div_mod::lemma_div_by_multiple(m * w, q); assert((m * w) * q / q == m * w); assert(mulm(a, b) == m * w);
    assert(m >= 0) by (nonlinear_arith) requires m == k * l, k >= 0, l >= 0; assert(m * w >= 0) by (nonlinear_arith) requires m >= 0, w >= 0; lemma_dvd_mul(w, m); assert(w * m == m * w) by (nonlinear_arith); lemma_round_exact(m * w, ds);
}
pub proof fn lemma_pw_mul(a: &NumericVar, b: &NumericVar, r: &NumericVar, x: real, i: nat, j: nat, e: nat, f: nat, d: real, n: nat, s: int, ls: int)
    requires pw_rep(a, x, i, e, d), pw_rep(b, x, j, f, d), pw_par(x, n, d, s), i <= n, j <= n, e + f + 1 <= n, ls == imax(imin(s - 4 * (a.weight + b.weight), a.dscale + b.dscale), 0),
        r.st(), r.norm(), r.dscale == ls, mul_ok(a, b, ls) ==> r.mag() == roundm(mulm(a.mag(), b.mag()), ls), mul_near(a.mag(), b.mag(), r.mag(), ls, imin(a.ndigits as int, b.ndigits as int)), dvd(U(ls), r.mag())
    ensures pw_rep(r, x, i + j, e + f + 1, d), r.mag() > 0
{
    lemma_pw_sz(a, x, i, e, d, n, s); lemma_pw_sz(b, x, j, f, d, n, s); lemma_pw_pre(a, b, x, i, j, e, f, d, n, s, ls);
    let p0 = p(KK); lemma_ppos(KK); let am = a.mag(); let bm = b.mag(); let rm = r.mag(); let wa = a.weight as int; let wb = b.weight as int; let cc = 10002 + 2 * imin(a.ndigits as int, b.ndigits as int);
    if ls == a.dscale + b.dscale { assert(mul_ok(a, b, ls)); lemma_mul_units(am, bm, a.dscale as int, b.dscale as int); lemma_mul_exact_real(am, bm, rm); } else { assert(ls >= s - 4 * (wa + wb)); lemma_near_real(am, bm, rm, ls, imin(a.ndigits as int, b.ndigits as int), cc); }
    lemma_pow_rel(rval(am), rval(bm), rval(rm), wa, wb, s, ls, cc); lemma_inb_mul(rval(am), rval(bm), rval(rm), x, i, j, e, f, d);
    lemma_rval_lin(rm, 0); if r.ndigits == 0 { lemma_val_empty(r.sd(), r.weight + KK); }
}
pub proof fn lemma_mul_exact_real(a: int, b: int, r: int) requires r * p(KK) == a * b ensures rval(r) == rval(a) * rval(b)
{
    lemma_cast_mul(r, p(KK)); lemma_cast_mul(a, b); lemma_ppos(KK); let q = p(KK) as real; let x = a as real; let y = b as real; let z = r as real;
    let u = x / q; let v = y / q; let w = z / q; assert(u * q == x && v * q == y && w * q == z) by (nonlinear_arith) requires u == x / q, v == y / q, w == z / q, q > 0real;
    assert(w == u * v) by (nonlinear_arith) requires z * q == x * y, u * q == x, v * q == y, w * q == z, q > 0real;
}
// ---- what a power returns: |r - x^n| is at most 0.501 units of the last place, plus k/10000
pub open spec fn pow_dom(x: int, n: int) -> bool { if x > 0 { rpwi(rval(x), n) <= r10(30000) } else { n >= 0 } }
pub open spec fn pow_err(x: int, n: int, r: int, rs: int, k: int) -> bool { 20000real * rabs(rval(r) - rpwi(rval(x), n)) <= ((10020 + 2 * k) as real) * r10(-rs) }
pub open spec fn pow_neg(sign: int, n: int) -> bool { sign == 0x4000 && n % 2 != 0 }
pub proof fn lemma_pow_wk(x: int, n: int, r: int, rs: int, k: int) requires k >= 0, rabs(rval(r) - rpwi(rval(x), n)) <= (501real / 1000real) * r10(-rs) ensures pow_err(x, n, r, rs, k)
{ lemma_r10_S(-rs); let u = r10(-rs); let c = (10020 + 2 * k) as real; assert(c * u >= 10020real * u) by (nonlinear_arith) requires c >= 10020real, u > 0real; }
pub proof fn lemma_pow_fits(x: int, n: int, r: int, rs: int, k: int) requires 0 <= rs <= 1000, 0 <= k <= 99000, r >= 0, x >= 0, pow_dom(x, n), pow_err(x, n, r, rs, k), dvd(U(rs), r) ensures fits(r, rs)
{
    lemma_U(rs); lemma_rval_lin(0, x); let v = rpwi(rval(x), n); let u = r10(-rs); lemma_r10_mono(-rs, 0); lemma_r10_S(0); lemma_r10_mono(5, 30000); lemma_r10_10();
    if x == 0 { lemma_rpow_0(n as nat); }
    let c = (10020 + 2 * k) as real; assert(c * u <= c) by (nonlinear_arith) requires 0real < u <= 1real, c >= 0real;
    assert(rval(r) <= v + 11real); lemma_r10_S(30000); let k131: int = 131072; lemma_r10_mono(30001, k131); lemma_rval_p(32768); lemma_rval_lin(p(32768 + KK), r);
    let q = lemma_mult(U(rs), r); let uu = U(rs); if r > 0 { assert(r >= uu) by (nonlinear_arith) requires r == q * uu, q >= 1, uu > 0; } lemma_pt(KK - 32767); lemma_tmono(4 * (KK - 32767), 4 * KK - rs);
}
pub proof fn lemma_rpow_0(n: nat) ensures n > 0 ==> rpow(0real, n) == 0real, n == 0 ==> rpow(0real, n) == 1real { if n > 0 { let y = rpow(0real, (n - 1) as nat); assert(0real * y == 0real); } }
pub proof fn lemma_pow_n0(x: int, rs: int) requires 0 <= rs <= 1000, x >= 0 ensures pow_err(x, 0, p(KK), rs, 0), dvd(U(rs), p(KK)), pow_dom(x, 0)
{ lemma_rval_p(0); lemma_r10_S(0); lemma_r10_S(-rs); lemma_r10_mono(0, 30000); lemma_pow_wk(x, 0, p(KK), rs, 0); lemma_pt(KK); lemma_t_dvd(4 * KK - rs, 4 * KK); }
pub proof fn lemma_pow_n1(x: int, rs: int) requires 0 <= rs <= 1000, x >= 0 ensures pow_err(x, 1, roundm(x, rs), rs, 0), dvd(U(rs), roundm(x, rs))
{ lemma_round_real(x, rs); lemma_rpow_1(rval(x)); lemma_r10_S(-rs); lemma_pow_wk(x, 1, roundm(x, rs), rs, 0); lemma_round_dvd(x, rs); }
pub proof fn lemma_pow_m1(y: int, rs: int) requires 0 <= rs <= 1000, y > 0 ensures pow_err(y, -1, quot_round(p(KK), y, rs), rs, 0), dvd(U(rs), quot_round(p(KK), y, rs)), quot_round(p(KK), y, rs) >= 0
{
    lemma_U(rs); lemma_ppos(KK); let u = U(rs); let q = p(KK); let r = quot_round(q, y, rs); let h = u / 2; let num = q * q + y * h; let den = y * u; let k = num / den;
    lemma_tS(4 * KK - rs); assert(2 * h == u);
    assert(den > 0) by (nonlinear_arith) requires den == y * u, y > 0, u > 0; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(num, den); vstd::arithmetic::div_mod::lemma_mod_bound(num, den);
    assert(r * y == den * k) by (nonlinear_arith) requires r == k * u, den == y * u; assert(2 * (y * h) == u * y) by (nonlinear_arith) requires 2 * h == u; assert(den == u * y) by (nonlinear_arith) requires den == y * u;
    let uy = u * y; let ry = r * y; assert(-uy <= 2 * (ry - q * q) <= uy); assert(fast_err(q, y, r, rs));
    assert(num >= 0) by (nonlinear_arith) requires num == q * q + y * h, q > 0, y > 0, h >= 0; vstd::arithmetic::div_mod::lemma_div_pos_is_pos(num, den);
    assert(k * u >= 0) by (nonlinear_arith) requires k >= 0, u > 0; lemma_dvd_mul(u, k); assert(u * k == k * u) by (nonlinear_arith);
    lemma_fast_real(y, r, rs); lemma_rpow_1(rval(y)); lemma_r10_S(-rs); lemma_pow_wk(y, -1, r, rs, 0);
}
pub proof fn lemma_pow_n2(x: int, r: int, rs: int, k: int) requires 0 <= rs <= 1000, x >= 0, 0 <= k, mul_near(x, x, r, rs, k) ensures pow_err(x, 2, r, rs, k)
{
    let cc = 10002 + 2 * k; lemma_near_real(x, x, r, rs, k, cc); lemma_rpow_1(rval(x)); lemma_r10_S(-rs); let u = r10(-rs); let c = cc as real; let e = (10020 + 2 * k) as real;
    assert(c * u <= e * u && 10000real * u <= e * u) by (nonlinear_arith) requires c <= e, 10000real <= e, u > 0real;
}
// the estimate says the result is zero
pub proof fn lemma_pow_under(x: int, n: int, rs: int) requires 0 <= rs <= 1000, x > 0, lg(rpwi(rval(x), n)) < -rs as real - 8real / 10real ensures pow_err(x, n, 0, rs, 0), dvd(U(rs), 0)
{
    lemma_rval_lin(0, x); let xr = rval(x); lemma_lg_powi(xr, n); let v = rpwi(xr, n); ax_lg(v, 2real); lemma_lg_pow(2real, 3); assert(rpow(2real, 3) == 8real) by { reveal_with_fuel(rpow, 4); } lemma_r10_10(); lemma_lg_lt(rpow(2real, 3), 1);
    lemma_lg_lt(v * 2real, -rs); lemma_r10_S(-rs); lemma_pow_wk(x, n, 0, rs, 0); lemma_U(rs); lemma_dvd_mul(U(rs), 0);
}
// entering the loop
pub proof fn lemma_pow_start(v: real, x: real, n: int, rs: int, d: real, s: int)
    requires x > 0real, n < -1 || n > 1, v == rpwi(x, n), r10(-rs - 2) < v <= r10(30000), 0 <= rs <= 1000, 8 <= s <= 31036, d == 5real * r10(-s), 0real < d <= 1real / 100real, (if n < 0 { -n } else { n }) as real * d <= 1real / 100real
    ensures pw_par(x, (if n < 0 { -n } else { n }) as nat, d, s)
{
    lemma_r10_mono(-30000, -rs - 2);
    if n < 0 { let y = rpow(x, (-n) as nat); lemma_rpow_pos(x, (-n) as nat); lemma_r10_add(30000, -30000); lemma_r10_S(0); lemma_r10_mono(-30000, 30000); let a = r10(30000); let b = r10(-30000); assert(v * y == 1real) by (nonlinear_arith) requires v == 1real / y, y > 0real;
        assert(b <= y <= a) by (nonlinear_arith) requires v * y == 1real, a * b == 1real, b < v, v <= a, y > 0real, a > 0real, b > 0real; }
}
pub proof fn lemma_pow_end(x: int, n: int, rr: int, ret: int, e: nat, d: real, s: int, rs: int)
    requires x > 0, n < -1 || n > 1, 0 <= rs <= 1000, ({ let m = (if n < 0 { -n } else { n }) as nat; &&& pw_par(rval(x), m, d, s) && e <= m && inb(rval(rr), rval(x), m, e, d) && rpwi(rval(x), n) * (m as real * d) <= r10(-rs) / 100000real }),
        rr > 0, n > 0 ==> ret == roundm(rr, rs), n < 0 ==> fast_err(p(KK), rr, ret, rs)
    ensures pow_err(x, n, ret, rs, 0)
{
    let m = (if n < 0 { -n } else { n }) as nat; lemma_pow_fin(rval(rr), rval(x), m, e, d); lemma_r10_S(-rs); if n > 0 { lemma_round_real(rr, rs); } else { lemma_fast_real(rr, ret, rs); } lemma_pow_wk(x, n, ret, rs, 0);
}
pub proof fn lemma_pow_logs(x: int, s: Seq<i16>, w: int, n: int) requires digs(s), s.len() >= 1, s[0] > 0, -98000 <= w <= 98000, s.len() - 1 - w <= 99000, x == V(s, w), -2147483648 <= n <= 2147483647, rpwi(rval(x), n) <= r10(30000)
    ensures x > 0, rval(x) > 0real, lg(rpwi(rval(x), n)) == n as real * lg(rval(x)), -2000000000000000real <= lg(rpwi(rval(x), n)) <= 30000real, rpwi(rval(x), n) > 0real, -400000real <= lg(rval(x)) <= 400000real
{
    lemma_pow_head(s, w, imin(s.len() as int, 4)); let xr = rval(x); lemma_r10_S(4 * w); lemma_rval_lin(x, 0); assert(x > 0); lemma_lg_powi(xr, n); lemma_lg_lt(rpwi(xr, n), 30000); lemma_lg_lt(xr, 4 * w); lemma_lg_lt(xr, 4 * w + 4);
    let l = lg(xr); let a = n as real; lemma_rabs_mul(a, l); let ra = rabs(a); let rl = rabs(l); assert(ra * rl <= 2147483648real * 400000real) by (nonlinear_arith) requires 0real <= ra <= 2147483648real, 0real <= rl <= 400000real;
}
pub open spec fn pow_k(n: int, nd: int) -> int { if n == 2 { nd } else { 0 } }
pub proof fn lemma_lg17(f: real) requires 1real <= f <= 100000000000000000real ensures 0real <= lg(f) <= 17real
{ assert(r10(17) == 100000000000000000real) by { reveal_with_fuel(rpow, 18); } lemma_r10_S(0); lemma_lg_lt(f, 0); lemma_lg_lt(f, 17); }
pub proof fn lemma_fstep_safe(f: real, h: int, j: int, s: Seq<i16>) requires 1 <= j <= 4, digs(s), h == hs(s, j), rabs(f - h as real) <= fd(j)
    ensures fsafe(f * 10000real), -20real <= f <= 100000000000000000real, j == 1 ==> 0 <= h <= 9999, j == 2 ==> 0 <= h <= 99999999, j == 3 ==> 0 <= h <= 999999999999
{ lemma_hs(s); assert(0 <= at(s, 0) <= 9999); assert(0 <= at(s, 1) <= 9999); assert(0 <= at(s, 2) <= 9999); assert(0 <= at(s, 3) <= 9999); }
pub proof fn lemma_pow_b0(n: int, rs: int) requires 0 <= rs <= 1000, n > 0 ensures pow_err(0, n, 0, rs, 0), dvd(U(rs), 0), fits(0, rs), pow_dom(0, n)
{ lemma_rval_lin(0, 0); lemma_rpow_0(n as nat); lemma_r10_S(-rs); lemma_pow_wk(0, n, 0, rs, 0); lemma_U(rs); lemma_dvd_mul(U(rs), 0); lemma_ppos(KK + 32768); }
pub proof fn lemma_rep_one(v: &NumericVar, x: real, d: real) requires v.st(), v.norm(), v.mag() == p(KK), v.ndigits == 1, v.dscale == 0, x > 0real ensures pw_rep(v, x, 0, 0, d)
{ lemma_int_scale(1); assert(1 * p(KK) == p(KK)); lemma_rval_p(0); lemma_r10_S(0); lemma_inb_one(x, d); }
// the exact cases
pub open spec fn pow_special(x: int, n: int, r: int, rs: int) -> bool { (n == 0 ==> r == p(KK)) && (n == 1 ==> r == roundm(x, rs)) && (n == -1 ==> r == quot_round(p(KK), x, rs)) }
// ---- what pow() promises: its domain and its results
pub open spec fn pow_n(y: NView) -> int { y.iv() / p(KK) }
pub open spec fn pow_int_in(x: NView, y: NView) -> bool { dvd(p(KK), y.iv()) && -2147483648 <= pow_n(y) <= 2147483647 && pow_dom(x.mag(), pow_n(y)) }
pub open spec fn pow_in(x: NView, y: NView) -> bool { x.nan || y.nan || x.mag() == 0 || x.iv() < 0 && !dvd(p(KK), y.iv()) || pow_int_in(x, y) }
pub open spec fn pow_one(x: NView, y: NView) -> bool { if x.nan { !y.nan && y.iv() == 0 } else { y.nan && x.iv() == p(KK) } }
pub open spec fn pow_nan(x: NView, y: NView) -> bool { (x.nan || y.nan) && !pow_one(x, y) }
pub open spec fn pow_res(x: NView, y: NView, z: NView) -> bool {
    if x.mag() == 0 { y.iv() >= 0 && z.iv() == (if y.iv() == 0 { p(KK) } else { 0 }) && 16 <= z.dscale <= 1000 } else {
        let n = pow_n(y);
        &&& dvd(p(KK), y.iv()) && z.dscale == imin(imax(16, x.dscale), 1000)
        &&& z.iv() == (if pow_neg(x.sign as int, n) { -z.mag() } else { z.mag() })
        &&& pow_err(x.mag(), n, z.mag(), z.dscale, pow_k(n, x.digits.len() as int)) && pow_special(x.mag(), n, z.mag(), z.dscale)
    }
}
pub proof fn lemma_pow_n(v: &NumericVar) requires v.can()
    ensures dvd(p(KK), v.iv()) ==> v.ndigits <= v.weight + 1 && v.iv() == pow_n(v.view()) * p(KK) && round_iv(v.iv(), 0) / p(KK) == pow_n(v.view()) && dvd(p(KK), v.mag()), v.ndigits <= v.weight + 1 || v.ndigits == 0 ==> dvd(p(KK), v.iv())
{
    lemma_ppos(KK); if v.ndigits == 0 || v.ndigits <= v.weight + 1 { lemma_pow_int(v.sd(), v.weight as int); lemma_dvd_neg(p(KK), v.mag()); }
    lemma_var_can(v); lemma_int_scale(0); lemma_ppos(KK); let q = p(KK); let m = v.mag(); let i = v.iv();
    if dvd(q, i) {
        lemma_dvd_neg(q, i); assert(-(-m) == m); assert(dvd(q, m)); lemma_round_exact(m, 0); lemma_dvd_i(q, i); if v.ndigits > 0 { lemma_norm_frac(v.sd(), v.weight as int, 0); }
        assert(round_iv(i, 0) == i);
    }
}
pub proof fn lemma_pow_int(s: Seq<i16>, w: int) requires digs(s), s.len() <= w + 1 || s.len() == 0, w <= 99000, w >= -99000 ensures dvd(p(KK), V(s, w))
{
    let n = s.len() as int; lemma_ppos(KK);
    if n == 0 { lemma_val_empty(s, w + KK); lemma_dvd_mul(p(KK), 0); } else { let e = w + KK + 1 - n; lemma_val_shift(s, n - 1, e); let v = val(s, n - 1); lemma_padd(KK, e - KK); let a = p(KK); let b = p(e - KK); lemma_dvd_mul(a, b * v); assert(v * (a * b) == a * (b * v)) by (nonlinear_arith); }
}
pub proof fn lemma_pow_z(i: int, n: int) requires i == n * p(KK) ensures i > 0 ==> n > 0, i == 0 ==> n == 0, i < 0 ==> n < 0
{ lemma_ppos(KK); let q = p(KK); assert(n <= 0 ==> n * q <= 0) by (nonlinear_arith) requires q > 0; assert(n >= 0 ==> n * q >= 0) by (nonlinear_arith) requires q > 0; assert(n >= 1 ==> n * q >= 1) by (nonlinear_arith) requires q > 0; assert(n <= -1 ==> n * q <= -1) by (nonlinear_arith) requires q > 0; }
pub proof fn lemma_pow_zero(n: int, r: int, rs: int, k: int) requires 0 <= rs <= 1000, n > 0, k == 0, r >= 0, pow_err(0, n, r, rs, k), dvd(U(rs), r) ensures r == 0
{
    lemma_rval_lin(0, 0); lemma_rpow_0(n as nat); lemma_r10_S(-rs); lemma_rval_U(rs); lemma_U(rs); let q = lemma_mult(U(rs), r); let u = U(rs);
    if r > 0 { assert(r >= u) by (nonlinear_arith) requires r == q * u, q >= 1, u > 0; lemma_rval_lin(u, r); let z = r10(-rs); let a = rval(r); let c = (10020 + 2 * k) as real; assert(c == 10020real); assert(c * z == 10020real * z); assert(rpwi(rval(0), n) == 0real); assert(a >= z); assert(rabs(a - 0real) == a); assert(20000real * rabs(a - rpwi(rval(0), n)) <= c * z); }
}
pub proof fn lemma_one_fits() ensures fits(p(KK), 0), dvd(U(0), p(KK)), p(KK) > 0, nan_view().can(), dvd(p(KK), 0), 0int / p(KK) == 0 { let q = p(KK); lemma_ppos(KK); lemma_int_scale(0); lemma_dvd_mul(U(0), 0); assert(0int / q == 0) by (nonlinear_arith) requires q > 0; lemma_int_scale(0); lemma_fits_int(1); lemma_int_scale(1); assert(1 * p(KK) == p(KK)); lemma_ppos(KK); }
pub proof fn lemma_pow_trunc(v: &NumericVar, t: &NumericVar)
    requires v.can(), t.st0(), t.dscale == 0, t.mag() == truncm(v.mag(), 0), t.sign == v.sign || t.sign == 0 && t.mag() == 0 && t.ndigits == 0, t.ndigits > 0 ==> (v.weight + 1) * 4 > 0, t.ndigits <= v.ndigits
    ensures t.ndigits > 0 ==> t.mag() > 0, t.iv() == v.iv() <==> dvd(p(KK), v.iv())
{
    lemma_var_can(v); lemma_can_facts(v.view()); lemma_int_scale(0); lemma_ppos(KK); let q = p(KK); let m = v.mag(); if dvd(q, v.iv()) { lemma_dvd_neg(q, v.iv()); } if dvd(q, m) { lemma_dvd_neg(q, m); }
    if v.weight >= 0 && v.ndigits > 0 { lemma_pmono(KK, v.weight + KK); lemma_trunc_pos(m); }
    if t.ndigits > 0 && v.ndigits == 0 { lemma_val_empty(v.sd(), v.weight + KK); }
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, q); assert((m / q) * q == q * (m / q)) by (nonlinear_arith); lemma_dvd_mul(q, m / q);
    assert(-(-m) == m); assert(dvd(q, v.iv()) <==> dvd(q, m));
    if dvd(q, m) { lemma_dvd_i(q, m); }
}
