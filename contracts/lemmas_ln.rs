// ---------------------------------------------------------------- the natural logarithm
// partial sums of z + z^3/3 + z^5/5 + ..., half the logarithm of (1+z)/(1-z)
pub open spec fn ats(z: real, n: nat) -> real decreases n { if n == 0 { 0real } else { ats(z, (n - 1) as nat) + rpow(z, (2 * n - 1) as nat) / ((2 * n - 1) as real) } }
pub axiom fn ax_ln_series(z: real, n: nat) requires rabs(z) <= 1real / 10real ensures 10real * (2 * n + 1) as real * rabs(lnr((1real + z) / (1real - z)) - 2real * ats(z, n)) <= 21real * rabs(rpow(z, 2 * n + 1));

// a root computed to ls digits, as reals
pub proof fn lemma_sq_aux(x: int, r: int, u0: int, p0: int, c: int)
    requires p0 > 0, c == 100000000 * r + 50000005 * u0 || c == 100000000 * r - 50000005 * u0
    ensures ({ let q = p0 as real; let z = (r as real) / q + (if c == 100000000 * r + 50000005 * u0 { 50000005real } else { -50000005real }) / 100000000real * ((u0 as real) / q);
        &&& (c * c <= 10000000000000000 * (x * p0) ==> z * z <= (x as real) / q) &&& (c * c >= 10000000000000000 * (x * p0) ==> z * z >= (x as real) / q) &&& (c <= 0 ==> z <= 0real) &&& (c >= 0 ==> z >= 0real) })
{
    let q = p0 as real; let a = x as real; let b = r as real; let u = u0 as real; let g = c as real;
    lemma_cast_mul(c, c); lemma_cast_mul(x, p0);
    let f = if c == 100000000 * r + 50000005 * u0 { 50000005real } else { -50000005real };
    let rr = b / q; let uu = u / q; let xx = a / q; assert(rr * q == b && uu * q == u && xx * q == a) by (nonlinear_arith) requires rr == b / q, uu == u / q, xx == a / q, q > 0real;
    let h = f / 100000000real; let z = rr + h * uu; assert(100000000real * h == f);
    assert(g == 100000000real * b + f * u) by { if f == 50000005real { assert(g == 100000000real * b + 50000005real * u); } else { assert(g == 100000000real * b - 50000005real * u); } }
    let zq = z * q; assert(zq == b + h * u) by (nonlinear_arith) requires zq == z * q, z == rr + h * uu, rr * q == b, uu * q == u;
    assert(100000000real * (h * u) == f * u) by (nonlinear_arith) requires 100000000real * h == f;
    assert(100000000real * zq == g);
    assert(g * g == 10000000000000000real * (zq * zq)) by (nonlinear_arith) requires 100000000real * zq == g;
    let aq = a * q; let qq = q * q; assert(qq > 0real) by (nonlinear_arith) requires qq == q * q, q > 0real; let zz = z * z;
    assert(aq == xx * qq) by (nonlinear_arith) requires aq == a * q, xx * q == a, qq == q * q;
    assert(zq * zq == zz * qq) by (nonlinear_arith) requires zq == z * q, zz == z * z, qq == q * q;
    if c * c <= 10000000000000000 * (x * p0) { assert(g * g <= 10000000000000000real * aq); assert(zz <= xx) by (nonlinear_arith) requires zz * qq <= xx * qq, qq > 0real; }
    if c * c >= 10000000000000000 * (x * p0) { assert(g * g >= 10000000000000000real * aq); assert(zz >= xx) by (nonlinear_arith) requires zz * qq >= xx * qq, qq > 0real; }
    assert(g <= 0real ==> z <= 0real) by (nonlinear_arith) requires 100000000real * (z * q) == g, q > 0real;
    assert(g >= 0real ==> z >= 0real) by (nonlinear_arith) requires 100000000real * (z * q) == g, q > 0real;
}
pub proof fn lemma_sq_real(x: int, r: int, ls: int) requires sq_err(x, r, ls), 0 <= ls <= 99000, r >= 0
    ensures ({ let h = (50000005real / 100000000real) * r10(-ls); let rr = rval(r); &&& (rr - h <= 0real || (rr - h) * (rr - h) <= rval(x)) &&& rval(x) <= (rr + h) * (rr + h) })
{
    lemma_rval_U(ls); lemma_ppos(KK); let u = U(ls); let a = 100000000 * r - 50000005 * u; let b = 100000000 * r + 50000005 * u;
    lemma_sq_aux(x, r, u, p(KK), a); lemma_sq_aux(x, r, u, p(KK), b);
    let h = (50000005real / 100000000real) * r10(-ls); assert((-50000005real) / 100000000real * r10(-ls) == -h) by (nonlinear_arith) requires h == (50000005real / 100000000real) * r10(-ls);
}
// one step of the range reduction halves the logarithm, up to 0.51 units of 10^-(rs+8)
pub proof fn lemma_root_g(x: real, r: real, h: real, g: real, v: real)
    requires g > 0real, 0real < v <= 1real / 100000000real, 0real < h, 100000000real * h <= 50000005real * (g * v), r >= 0real, x >= g * g, x <= (r + h) * (r + h)
    ensures r > 0real, 10000real * r >= 9999real * g, 10000real * h <= 5001real * (r * v)
{
    let y = r + h; if y < g { assert(y * y < g * g) by (nonlinear_arith) requires 0real < y < g; }
    let gv = g * v; assert(100000000real * gv <= g) by (nonlinear_arith) requires gv == g * v, g > 0real, 100000000real * v <= 1real;
    assert(10000real * r >= 9999real * g); let rv_ = r * v;
    assert(10000real * rv_ >= 9999real * gv) by (nonlinear_arith) requires rv_ == r * v, gv == g * v, 10000real * r >= 9999real * g, v > 0real;
}
pub proof fn lemma_root_ln(x: real, r: real, h: real, v: real)
    requires x > 0real, r > 0real, 0real < h, 0real < v <= 1real / 100000000real, 10000real * h <= 5001real * (r * v), r - h <= 0real || (r - h) * (r - h) <= x, x <= (r + h) * (r + h)
    ensures 100real * rabs(2real * lnr(r) - lnr(x)) <= 102real * v
{
    let d = h / r; assert(d * r == h && d > 0real) by (nonlinear_arith) requires d == h / r, r > 0real, h > 0real;
    assert(10000real * d <= 5001real * v) by (nonlinear_arith) requires 10000real * (d * r) <= 5001real * (r * v), r > 0real;
    let a = 1real + d; let b = 1real - d; assert(r + h == r * a) by (nonlinear_arith) requires d * r == h, a == 1real + d; assert(r - h == r * b) by (nonlinear_arith) requires d * r == h, b == 1real - d;
    assert(r * a > 0real && r * b > 0real) by (nonlinear_arith) requires r > 0real, a > 0real, b > 0real;
    let ra = r * a; let rb = r * b; assert(ra * ra > 0real && rb * rb > 0real) by (nonlinear_arith) requires ra > 0real, rb > 0real;
    ax_ln(x, ra * ra); ax_ln(rb * rb, x); ax_ln(ra, ra); ax_ln(rb, rb); ax_ln(r, a); ax_ln(r, b); ax_ln(a, a); ax_ln(b, b);
    let i = 1real / b; assert(i * b == 1real) by (nonlinear_arith) requires i == 1real / b, b > 0real;
    assert(i <= 1real + (10001real / 10000real) * d) by (nonlinear_arith) requires i * b == 1real, b == 1real - d, 0real < d <= 1real / 100000000real;
}
pub proof fn lemma_ln_root(x: int, r: int, ls: int, w: int, rs: int)
    requires 0 <= rs <= 2000, 0 <= ls <= 10000, ls >= rs - 2 * w + 8, -8192 <= w <= 40000, x >= p(w + KK), r >= 0, sq_err(x, r, ls)
    ensures r > 0, rval(r) > 0real, 10000 * U(ls) <= r, rval(x) > 0real, 100real * rabs(2real * lnr(rval(r)) - lnr(rval(x))) <= 102real * r10(-(rs + 8)),
        w <= -1 ==> r > p(w + KK), w >= 0 ==> r > p(KK - 1), r <= x || r < 2 * p(KK), 10 * x >= 11 * p(KK) ==> 10 * r > 9 * p(KK)
{
    let v = r10(-(rs + 8)); let g = r10(2 * w); let u = r10(-ls); let X = rval(x); let R = rval(r);
    lemma_ln_v(rs); lemma_r10_S(2 * w); lemma_r10_S(-ls); lemma_sq_real(x, r, ls); lemma_rval_p(w); lemma_rval_lin(p(w + KK), x); lemma_r10_add(2 * w, 2 * w); lemma_r10_add(2 * w, -(rs + 8)); lemma_r10_mono(-ls, 2 * w - (rs + 8)); lemma_rval_lin(0, r); lemma_ppos(w + KK); lemma_rval_lin(0, x);
    let h = (50000005real / 100000000real) * u; assert(100000000real * h == 50000005real * u);
    lemma_root_g(X, R, h, g, v); lemma_root_ln(X, R, h, v);
    lemma_rval_U(ls); lemma_rval_mul(10000, U(ls)); lemma_rval_lin(r, 10000 * U(ls)); lemma_rval_lin(r, 0);
    assert(10000real * u <= R) by { let gv = g * v; assert(100000000real * gv <= g) by (nonlinear_arith) requires gv == g * v, g > 0real, 100000000real * v <= 1real; }
    if w <= -1 { lemma_r10_mono(4 * w + 2, 2 * w); lemma_r10_S(4 * w); lemma_r10_S(4 * w + 1); lemma_rval_lin(r, p(w + KK)); }
    if w >= 0 { lemma_r10_mono(0, 2 * w); lemma_r10_S(0); lemma_r10_S(-1); lemma_r10_mono(-4, -1); lemma_rval_p(-1); lemma_rval_lin(r, p(KK - 1)); }
    assert(10000real * h <= R) by { let rv = R * v; assert(rv <= R / 100000000real) by (nonlinear_arith) requires rv == R * v, R > 0real, 100000000real * v <= 1real; }
    if 10 * x >= 11 * p(KK) && 10 * r <= 9 * p(KK) {
        lemma_red(x); lemma_red(r); let y = R + h; assert(y * y < 11real / 10real) by (nonlinear_arith) requires 0real < y, 10real * y <= 95real / 10real;
    }
    if r >= 2 * p(KK) {
        lemma_rval_p(0); lemma_r10_S(0); lemma_rval_mul(2, p(KK)); lemma_rval_lin(2 * p(KK), r); let z = R - h; assert(10000real * h <= R) by { let rv = R * v; assert(rv <= R / 100000000real) by (nonlinear_arith) requires rv == R * v, R > 0real, 100000000real * v <= 1real; }
        assert(z * z >= R) by (nonlinear_arith) requires 10000real * z >= 9999real * R, R >= 2real; lemma_rval_lin(x, r);
    }
}
pub proof fn lemma_ln_v(rs: int) requires 0 <= rs <= 99000 ensures 0real < r10(-(rs + 8)) <= 1real / 100000000real
{ lemma_r10_S(-(rs + 8)); lemma_r10_mono(-(rs + 8), -8); assert(r10(-8) == 1real / 100000000real) by { reveal_with_fuel(rpow, 9); } }
// after k steps
pub open spec fn lnst(a: real, x: real, k: nat, v: real) -> bool { 100real * rabs(rpow(2real, k) * lnr(x) - a) <= 102real * (rpow(2real, k) * v) && k <= 24 && (k == 0 || 4real * rpow(2real, k) <= 100real * rabs(a)) && x > 0real }
pub proof fn lemma_p2_24(k: nat) ensures rpow(2real, k) >= 1real, k >= 24 ==> rpow(2real, k) >= 16777216real, rpow(2real, k + 1) == 2real * rpow(2real, k), k <= 24 ==> rpow(2real, k) <= 16777216real
{
    lemma_rpow_ge1(2real, 0, k); assert(rpow(2real, 24) == 16777216real) by (compute); if k >= 24 { lemma_rpow_ge1(2real, 24, k); } else { lemma_rpow_ge1(2real, k, 24); }
}
pub proof fn lemma_ln_far(x: real) requires x > 0real, 10real * x <= 9real || 10real * x >= 11real ensures 100real * rabs(lnr(x)) >= 9real
{
    ax_ln(x, x); if 10real * x >= 11real { let i = 1real / x; assert(11real * i <= 10real) by (nonlinear_arith) requires i == 1real / x, 10real * x >= 11real; }
}
pub proof fn lemma_ln_step(a: real, x: real, y: real, k: nat, v: real)
    requires lnst(a, x, k, v), y > 0real, 100real * rabs(2real * lnr(y) - lnr(x)) <= 102real * v, 10real * x <= 9real || 10real * x >= 11real, rabs(a) <= 1300000real, 0real < v <= 1real / 100000000real
    ensures lnst(a, y, k + 1, v), k <= 23
{
    lemma_ln_far(x); lemma_p2_24(k); let q = rpow(2real, k); let l = lnr(x); let m = lnr(y); let ql = q * l; let qv = q * v;
    assert(100000000real * qv <= q && qv >= 0real) by (nonlinear_arith) requires qv == q * v, 0real < 100000000real * v <= 1real, q >= 1real;
    assert(100real * rabs(ql) >= 9real * q) by (nonlinear_arith) requires ql == q * l, 100real * rabs(l) >= 9real, q >= 1real;
    assert(899real * q <= 10000real * rabs(a));
    let t = 2real * m - l; let qt = q * t; assert(100real * rabs(qt) <= 102real * qv) by (nonlinear_arith) requires qt == q * t, qv == q * v, 100real * rabs(t) <= 102real * v, q >= 1real;
    assert((2real * q) * m == qt + ql) by (nonlinear_arith) requires qt == q * t, ql == q * l, t == 2real * m - l; assert((2real * q) * v == 2real * qv) by (nonlinear_arith) requires qv == q * v;
}
// ---- the quotient (x-1)/(x+1) and the series, in absolute values
pub proof fn lemma_quot_aux(x: int, y: int, r: int, u0: int, p0: int) requires p0 > 0, y > 0, -(50000000002 * (u0 * y)) <= 100000000000 * (r * y - x * p0) <= 50000000002 * (u0 * y)
    ensures ({ let q = p0 as real; let (xx, yy, rr, v) = ((x as real) / q, (y as real) / q, (r as real) / q, (u0 as real) / q); yy > 0real && 100000000000real * rabs(rr * yy - xx) <= 50000000002real * (v * yy) })
{
    let q = p0 as real; let a = x as real; let b = y as real; let c = r as real; let u = u0 as real; lemma_cast_mul(r, y); lemma_cast_mul(x, p0); lemma_cast_mul(u0, y);
    let dr = c * b - a * q; let ur = u * b; assert(-(50000000002real * ur) <= 100000000000real * dr <= 50000000002real * ur);
    let xx = a / q; let yy = b / q; let rr = c / q; let v = u / q; assert(xx * q == a) by (nonlinear_arith) requires xx == a / q, q > 0real; assert(yy * q == b) by (nonlinear_arith) requires yy == b / q, q > 0real; assert(rr * q == c) by (nonlinear_arith) requires rr == c / q, q > 0real; assert(v * q == u) by (nonlinear_arith) requires v == u / q, q > 0real;
    assert(yy > 0real) by (nonlinear_arith) requires yy * q == b, b > 0real, q > 0real;
    let e = rr * yy - xx; let w = v * yy; let qq = q * q; assert(qq > 0real) by (nonlinear_arith) requires qq == q * q, q > 0real;
    assert(c * b == (rr * q) * (yy * q) && a * q == (xx * q) * q && u * b == (v * q) * (yy * q));
    let pr = rr * yy; assert((rr * q) * (yy * q) == (rr * yy) * (q * q)) by (nonlinear_arith); assert((xx * q) * q == xx * (q * q)) by (nonlinear_arith); assert((pr - xx) * qq == pr * qq - xx * qq) by (nonlinear_arith); assert((v * q) * (yy * q) == (v * yy) * (q * q)) by (nonlinear_arith);
    assert(dr == e * qq && ur == w * qq);
    let z1 = 100000000000real * e - 50000000002real * w; let z2 = 100000000000real * e + 50000000002real * w;
    assert(z1 * qq == 100000000000real * (e * qq) - 50000000002real * (w * qq)) by (nonlinear_arith) requires z1 == 100000000000real * e - 50000000002real * w;
    assert(z2 * qq == 100000000000real * (e * qq) + 50000000002real * (w * qq)) by (nonlinear_arith) requires z2 == 100000000000real * e + 50000000002real * w;
    assert(z1 <= 0real) by (nonlinear_arith) requires z1 * qq <= 0real, qq > 0real; assert(z2 >= 0real) by (nonlinear_arith) requires z2 * qq >= 0real, qq > 0real;
}
pub proof fn lemma_quot_real(x: int, y: int, r: int, ds: int) requires y > 0, 0 <= ds <= 99000, fast_err(x, y, r, ds) ensures rval(y) > 0real, 100000000000real * rabs(rval(r) * rval(y) - rval(x)) <= 50000000002real * (r10(-ds) * rval(y))
{ lemma_rval_U(ds); lemma_ppos(KK); lemma_quot_aux(x, y, r, U(ds), p(KK)); }
// c = (x-1)/(x+1) up to v/2 gives the logarithm of x up to 1.1 v
pub proof fn lemma_ln_ratio(x: real, c: real, v: real)
    requires 9real <= 10real * x <= 11real, 0real < v <= 1real / 100000000real, 100000000000real * rabs(c * (x + 1real) - (x - 1real)) <= 50000000002real * (v * (x + 1real))
    ensures 1000real * rabs(c) <= 53real, 10real * rabs(lnr((1real + c) / (1real - c)) - lnr(x)) <= 11real * v
{
    let y = x + 1real; let e = c * y - (x - 1real); let vy = v * y; assert(100000000real * vy <= y && vy > 0real) by (nonlinear_arith) requires vy == v * y, 0real < 100000000real * v <= 1real, y >= 1real;
    assert(1000real * c <= 53real) by (nonlinear_arith) requires c * y <= 527real / 10000real * y, y >= 1real;
    assert(1000real * c >= -53real) by (nonlinear_arith) requires c * y >= -(527real / 10000real * y), y >= 1real;
    let a = 1real + c; let b = 1real - c; let d = e / y; assert(d * y == e) by (nonlinear_arith) requires d == e / y, y >= 1real;
    assert(1000real * d <= 501real * v) by (nonlinear_arith) requires 1000real * (d * y) <= 501real * (v * y), y >= 1real; assert(1000real * d >= -501real * v) by (nonlinear_arith) requires 1000real * (d * y) >= -(501real * (v * y)), y >= 1real;
    // with c = (x-1)/(x+1) + d: (1+c)(x+1) = 2x + e, (1-c)(x+1) = 2 - e
    let f = e / (2real * x); let g = e / 2real; assert(f * (2real * x) == e) by (nonlinear_arith) requires f == e / (2real * x), x > 0real;
    assert(a * y == 2real * x + e) by (nonlinear_arith) requires a == 1real + c, e == c * y - (x - 1real), y == x + 1real; assert(b * y == 2real - e) by (nonlinear_arith) requires b == 1real - c, e == c * y - (x - 1real), y == x + 1real;
    assert(2real * x + e == (2real * x) * (1real + f)) by (nonlinear_arith) requires f * (2real * x) == e; assert(2real - e == 2real * (1real - g)) by (nonlinear_arith) requires g == e / 2real;
    assert(1000real * rabs(f) <= 530real * v) by (nonlinear_arith) requires f * (2real * x) == e, 100000000000real * rabs(e) <= 50000000002real * vy, vy == v * y, y == x + 1real, 9real <= 10real * x <= 11real, v > 0real;
    assert(1000real * rabs(g) <= 526real * v) by (nonlinear_arith) requires g == e / 2real, 100000000000real * rabs(e) <= 50000000002real * vy, vy == v * y, y == x + 1real, 9real <= 10real * x <= 11real, v > 0real;
    let q = a / b; assert(q * b == a && q > 0real) by (nonlinear_arith) requires q == a / b, b > 0real, a > 0real;
    // q (1-g) = x (1+f)
    let h = 1real - g; let k = 1real + f;
    assert(q * h == x * k) by (nonlinear_arith) requires q * b == a, a * y == (2real * x) * k, b * y == 2real * h, y >= 1real;
    ax_ln(q, h); ax_ln(x, k); ax_ln(h, h); ax_ln(k, k);
    let i = 1real / h; let j = 1real / k; assert(i * h == 1real) by (nonlinear_arith) requires i == 1real / h, h > 0real; assert(j * k == 1real) by (nonlinear_arith) requires j == 1real / k, k > 0real;
    assert(1000real * rabs(1real - i) <= 530real * v) by (nonlinear_arith) requires i * h == 1real, h == 1real - g, 1000real * rabs(g) <= 526real * v, 0real < v <= 1real / 100000000real;
    assert(1000real * rabs(1real - j) <= 535real * v) by (nonlinear_arith) requires j * k == 1real, k == 1real + f, 1000real * rabs(f) <= 530real * v, 0real < v <= 1real / 100000000real;
}
// the next odd power: xx ~ b^n, s ~ b^2
pub proof fn lemma_ser_mul(b: real, bn: real, xx: real, s: real, y: real, v: real)
    requires 0real <= 1000real * b <= 53real, 0real <= bn <= b, 0real < v <= 1real / 100000000real, 100real * rabs(s - b * b) <= 54real * v, 100real * rabs(xx - bn) <= 58real * v, 100real * rabs(y - xx * s) <= 54real * v, s >= 0real
    ensures 100real * rabs(y - bn * (b * b)) <= 58real * v, 0real <= bn * (b * b) <= b, 1000real * s <= 3real
{
    let bb = b * b; assert(0real <= 1000000real * bb <= 2809real) by (nonlinear_arith) requires bb == b * b, 0real <= 1000real * b <= 53real; let d = xx - bn; let e = s - bb; let m = bn * bb;
    assert(xx * s - m == d * s + bn * e) by (nonlinear_arith) requires d == xx - bn, e == s - bb, m == bn * bb;
    assert(1000real * s <= 3real); let ds = d * s; let be = bn * e;
    assert(100000real * rabs(ds) <= 174real * v) by (nonlinear_arith) requires ds == d * s, 100real * rabs(d) <= 58real * v, 0real <= 1000real * s <= 3real;
    assert(100000real * rabs(be) <= 2862real * v) by (nonlinear_arith) requires be == bn * e, 100real * rabs(e) <= 54real * v, 0real <= 1000real * bn <= 53real;
    assert(0real <= m <= b) by (nonlinear_arith) requires m == bn * bb, 0real <= bn <= b, 0real <= bb <= 1real;
}
// the term of the series it gives
pub proof fn lemma_ser_elem(bn: real, xx: real, n: real, el: real, v: real)
    requires n >= 3real, v > 0real, bn >= 0real, 100real * rabs(xx - bn) <= 58real * v, 100000000000real * rabs(el * n - xx) <= 50000000002real * (v * n)
    ensures 10real * rabs(el - bn / n) <= 7real * v, el >= v ==> 10real * bn >= 9real * v
{
    let m = bn / n; assert(m * n == bn) by (nonlinear_arith) requires m == bn / n, n >= 3real; let d = el - m; let vn = v * n; let e = el * n - xx; assert(d * n == e + (xx - bn)) by (nonlinear_arith) requires d == el - m, m * n == bn, e == el * n - xx;
    let dn = d * n; assert(1000real * rabs(dn) <= 501real * vn + 580real * v); assert(v * 3real <= vn) by (nonlinear_arith) requires vn == v * n, n >= 3real, v > 0real;
    assert(1000real * rabs(dn) <= 695real * vn); assert(10real * d <= 7real * v) by (nonlinear_arith) requires 1000real * (d * n) <= 695real * (v * n), n >= 3real, v > 0real; assert(10real * d >= -(7real * v)) by (nonlinear_arith) requires 1000real * (d * n) >= -(695real * (v * n)), n >= 3real, v > 0real;
    if el >= v { assert(10real * m >= 3real * v); assert(10real * bn >= 9real * v) by (nonlinear_arith) requires 10real * m >= 3real * v, m * n == bn, n >= 3real, v > 0real; }
}
// odd powers of b <= 0.053 fall by at least 100 each
pub proof fn lemma_ser_fall(b: real, i: nat) requires 0real <= 1000real * b <= 53real ensures 0real <= 100real * rpow(b, 2 * i + 1) <= 6real * r10(-2 * (i as int)), rpow(b, 2 * (i + 1) + 1) == rpow(b, 2 * i + 1) * (b * b), 0real <= rpow(b, 2 * i + 1) <= b decreases i
{
    lemma_rpow_1(b); lemma_rpow_add(b, 2 * i + 1, 2); assert(2 * (i + 1) + 1 == 2 * i + 1 + 2); lemma_r10_S(0);
    if i > 0 {
        let j = (i - 1) as nat; lemma_ser_fall(b, j); let u = rpow(b, 2 * j + 1); let bb = b * b; assert(0real <= 100real * bb <= 1real) by (nonlinear_arith) requires bb == b * b, 0real <= 1000real * b <= 53real;
        assert(j + 1 == i); lemma_r10_S(-2 * (i as int)); lemma_r10_S(-2 * (i as int) + 1); assert(-2 * (j as int) == -2 * (i as int) + 2); let w = u * bb;
        assert(0real <= 100real * w <= u) by (nonlinear_arith) requires w == u * bb, 0real <= 100real * bb <= 1real, u >= 0real;
    }
}
pub open spec fn ser_ok(b: real, i: nat, xx: int, s: int, res: int, ss: int) -> bool {
    let v = r10(-ss); 0real <= 1000real * b <= 53real && 8 <= ss <= 1008 && 2 * i <= ss && xx >= 0 && s >= 0 && res >= 0
    && 100real * rabs(rval(xx) - rpow(b, 2 * i + 1)) <= 58real * v && 100real * rabs(rval(s) - b * b) <= 54real * v && 10real * rabs(rval(res) - ats(b, i + 1)) <= 7real * (i as real * v)
}
pub open spec fn lnq(b: real) -> real { lnr((1real + b) / (1real - b)) }
pub proof fn lemma_ser_v(ss: int) requires 8 <= ss <= 99000 ensures 0real < r10(-ss) <= 1real / 100000000real, rval(U(ss)) == r10(-ss), U(ss) > 0, rval(p(KK)) == 1real, rval(0) == 0real
{ lemma_ln_v(ss - 8); lemma_rval_U(ss); lemma_rval_p(0); lemma_r10_S(0); lemma_rval_lin(0, 0); }
// everything stays below 1
pub proof fn lemma_ser_sz(b: real, i: nat, xx: int, s: int, res: int, ss: int) requires ser_ok(b, i, xx, s, res, ss) ensures xx < p(KK), s < p(KK), res < p(KK), 10real * rval(res) <= 2real
{
    let v = r10(-ss); lemma_ser_v(ss); lemma_ser_fall(b, i); lemma_ser_fall(b, i + 1); ax_ln_series(b, i + 1); let n = (2 * (i + 1) + 1) as real; let l = lnq(b); let a = ats(b, i + 1);
    let q = (1real + b) / (1real - b); assert(q > 0real && 1000real * (q - 1real) <= 120real) by (nonlinear_arith) requires q == (1real + b) / (1real - b), 0real <= 1000real * b <= 53real; ax_ln(q, q);
    let d = rabs(l - 2real * a); assert(d <= 1real / 10real) by (nonlinear_arith) requires 10real * n * d <= 21real * (53real / 1000real), n >= 3real, d >= 0real;
    let iv = i as real * v; assert(iv <= 1008real * v) by (nonlinear_arith) requires iv == i as real * v, i <= 1008, v > 0real;
    let bb = b * b; assert(0real <= 1000000real * bb <= 2809real) by (nonlinear_arith) requires bb == b * b, 0real <= 1000real * b <= 53real;
    lemma_rval_lin(p(KK), xx); lemma_rval_lin(p(KK), s); lemma_rval_lin(p(KK), res);
}
pub proof fn lemma_ser_int(b: real, i: nat, xx: int, s: int, y: int, n: int, el: int, res: int, ss: int, k: int)
    requires ser_ok(b, i, xx, s, res, ss), mul_near(xx, s, y, ss, k), 0 <= k <= 390, y >= 0, n == (2 * i + 3) * p(KK), fast_err(y, n, el, ss), dvd(U(ss), el), el >= 0
    ensures el == 0 ==> 10real * rabs(lnq(b) - 2real * rval(res)) <= (7 * ss + 15) as real * r10(-ss), el > 0 ==> el >= U(ss) && 2 * (i + 1) < ss && ser_ok(b, i + 1, y, s, res + el, ss), y < p(KK), y == 0 ==> el == 0
{
    let v = r10(-ss); lemma_ser_v(ss); let cc = 10002 + 2 * k; lemma_near_real(xx, s, y, ss, k, cc); let c = cc as real; assert(c * v <= 10800real * v) by (nonlinear_arith) requires c <= 10800real, v > 0real;
    lemma_ser_fall(b, i); lemma_ser_fall(b, i + 1); let bn = rpow(b, 2 * i + 1); let bm = rpow(b, 2 * (i + 1) + 1); lemma_rval_lin(0, s); lemma_rval_lin(0, xx); lemma_rval_lin(0, y); lemma_rval_lin(0, el);
    lemma_ser_mul(b, bn, rval(xx), rval(s), rval(y), v); lemma_rval_lin(p(KK), y);
    lemma_ppos(KK); let m = 2 * i + 3; assert(n > 0) by (nonlinear_arith) requires n == m * p(KK), m >= 3, p(KK) >= 1; lemma_rval_mul(m as int, p(KK)); let nr = m as real; assert(nr * 1real == nr); assert(rval(n) == nr);
    lemma_quot_real(y, n, el, ss); lemma_ser_elem(bm, rval(y), nr, rval(el), v); let e = bm / nr;
    assert(2 * (i + 1) + 1 == m); assert((2 * (i + 2) - 1) as nat == m); assert((i + 2 - 1) as nat == i + 1); assert(ats(b, i + 2) == ats(b, i + 1) + e);
    let a = i as real * v; assert((i + 1) as real * v == a + v) by (nonlinear_arith) requires a == i as real * v;
    if y == 0 && el > 0 { let j = lemma_mult(U(ss), el); assert(el >= U(ss)) by (nonlinear_arith) requires el == j * U(ss), j >= 1, U(ss) > 0; lemma_rval_lin(U(ss), el); let e1 = rval(el); let en = e1 * nr; let vn = v * nr; assert(en >= vn && vn > 0real) by (nonlinear_arith) requires en == e1 * nr, vn == v * nr, e1 >= v, nr >= 3real, v > 0real; }
    if el == 0 {
        ax_ln_series(b, i + 1); let d = rabs(lnq(b) - 2real * ats(b, i + 1)); assert(e * nr == bm) by (nonlinear_arith) requires e == bm / nr, nr >= 3real;
        assert(10real * nr * d <= 21real * bm); assert(100real * d <= 147real * v) by (nonlinear_arith) requires 10real * nr * d <= 21real * bm, e * nr == bm, 10real * e <= 7real * v, nr >= 3real;
        assert(2real * a <= ss as real * v) by (nonlinear_arith) requires a == i as real * v, 2 * i <= ss, v > 0real;
        assert((7 * ss + 15) as real * v == 7real * (ss as real * v) + 15real * v) by (nonlinear_arith);
    } else {
        let j = lemma_mult(U(ss), el); assert(el >= U(ss)) by (nonlinear_arith) requires el == j * U(ss), j >= 1, U(ss) > 0; lemma_rval_lin(U(ss), el); lemma_rval_lin(res, -el); assert(rval(res + el) == rval(res) + rval(el)) by { lemma_rval_lin(res, el); }
        if 2 * (i + 1) >= ss { lemma_r10_mono(-2 * ((i + 1) as int), -ss); assert(false); }
    }
}
// ---- the whole computation
pub open spec fn two(n: nat) -> int decreases n { if n == 0 { 1 } else { 2 * two((n - 1) as nat) } }
pub proof fn lemma_two(n: nat) ensures two(n) >= 1, rpow(2real, n) == two(n) as real, rval(two(n) * p(KK)) == rpow(2real, n), n <= 26 ==> two(n) <= 67108864 decreases n
{ if n > 0 { lemma_two((n - 1) as nat); } lemma_rval_mul(two(n), p(KK)); lemma_rval_p(0); lemma_r10_S(0); let a = two(n) as real; assert(a * 1real == a); if n <= 26 { lemma_rpow_ge1(2real, n, 26); assert(rpow(2real, 26) == 67108864real) by (compute); } }
pub proof fn lemma_ln_size(x: int, w: int) requires p(w + KK) <= x, x < p(w + 1 + KK), -33000 <= w <= 33000 ensures x > 0, rval(x) > 0real, rabs(lnr(rval(x))) <= 310000real
{
    lemma_ppos(w + KK); lemma_rval_lin(0, x); let X = rval(x); lemma_rval_p(w); lemma_rval_p(w + 1); lemma_rval_lin(p(w + KK), x); lemma_rval_lin(x, p(w + 1 + KK)); lemma_lg_lt(X, 4 * w); lemma_lg_lt(X, 4 * w + 4); ax_ln10(X); let l = lg(X); let e = lnr(10real);
    assert(rabs(e * l) <= 310000real) by (nonlinear_arith) requires 2302585092real <= 1000000000real * e <= 2302585093real, -132004real <= l <= 132004real;
}
pub open spec fn ln_bnd(l: real, ds: int) -> real { (1real / 2real + (1real + 25real * rabs(l)) * ((ds + 15) as real / 100000000real)) * r10(-ds) }
// r is the natural logarithm of x to ds digits
pub open spec fn ln_err(x: int, r: int, ds: int) -> bool { rabs(rval(r) - lnr(rval(x))) <= ln_bnd(lnr(rval(x)), ds) }
pub open spec fn sg(neg: bool, m: int) -> int { if neg { -m } else { m } }
pub open spec fn red_ok(x: int) -> bool { 9 * p(KK) <= 10 * x <= 11 * p(KK) }
pub proof fn lemma_red(x: int) ensures red_ok(x) ==> 9real <= 10real * rval(x) <= 11real, 10 * x <= 9 * p(KK) ==> 10real * rval(x) <= 9real, 10 * x >= 11 * p(KK) ==> 10real * rval(x) >= 11real
{ lemma_rval_p(0); lemma_r10_S(0); let q = p(KK); lemma_rval_mul(9, q); lemma_rval_mul(10, x); lemma_rval_mul(11, q); lemma_rval_lin(9 * q, 10 * x); lemma_rval_lin(10 * x, 9 * q); lemma_rval_lin(10 * x, 11 * q); lemma_rval_lin(11 * q, 10 * x); }
// the quotient starts the series
pub proof fn lemma_ser_start(x: int, c: int, s: int, ss: int, k: int)
    requires red_ok(x), 8 <= ss <= 1008, c >= 0, s >= 0, fast_err(iabs(x - p(KK)), x + p(KK), c, ss), mul_near(c, c, s, ss, k), 0 <= k <= 390
    ensures ser_ok(rval(c), 0, c, s, c, ss), 10real * rabs((if x < p(KK) { -lnq(rval(c)) } else { lnq(rval(c)) }) - lnr(rval(x))) <= 11real * r10(-ss)
{
    let v = r10(-ss); lemma_ser_v(ss); lemma_red(x); let q = p(KK); lemma_ppos(KK); let cc = 10002 + 2 * k; lemma_near_real(c, c, s, ss, k, cc); let e = cc as real; assert(e * v <= 10800real * v) by (nonlinear_arith) requires e <= 10800real, v > 0real;
    lemma_quot_real(iabs(x - q), x + q, c, ss); lemma_rval_lin(x, q); lemma_rval_lin(q, x); lemma_rval_lin(x, -q); assert(rval(x + q) == rval(x) + rval(q)); assert(rval(x - q) == rval(x) - rval(q)); assert(rval(q - x) == rval(q) - rval(x));
    let b = rval(c); lemma_rval_lin(0, c); lemma_rpow_1(b); assert(ats(b, 0) == 0real); assert(ats(b, 1) == 0real + rpow(b, 1) / 1real) by { assert((2 * 1 - 1) as nat == 1); assert((1 - 1) as nat == 0); } assert(0real * v == 0real);
    let X = rval(x); let y = X + 1real; let t = if x < q { -b } else { b };
    if x < q { assert(t * y == -(b * y)) by (nonlinear_arith) requires t == -b; }
    lemma_ln_ratio(X, t, v);
    if x < q { let m = (1real + b) / (1real - b); let n = (1real - b) / (1real + b); assert(m > 0real && n > 0real && m * n == 1real) by (nonlinear_arith) requires m == (1real + b) / (1real - b), n == (1real - b) / (1real + b), 0real <= b <= 1real / 10real; ax_ln(m, n); ax_ln(1real, 1real); assert(1real * 1real == 1real) by (nonlinear_arith); }
}
pub proof fn lemma_ln_fin(a: real, x: int, k: nat, rs: int, b: real, res: int, neg: bool, fact: int, r: int)
    requires 0 <= rs <= 1000, lnst(a, rval(x), k, r10(-(rs + 8))), 10real * rabs((if neg { -lnq(b) } else { lnq(b) }) - lnr(rval(x))) <= 11real * r10(-(rs + 8)),
        10real * rabs(lnq(b) - 2real * rval(res)) <= (7 * (rs + 8) + 15) as real * r10(-(rs + 8)), fact == two(k + 1) * p(KK), mul_exact(res, fact), r == roundm(mulm(res, fact), rs)
    ensures rabs(rval(sg(neg, r)) - a) <= ln_bnd(a, rs)
{
    let ss = rs + 8; let v = r10(-ss); lemma_ser_v(ss); lemma_two(k + 1); lemma_two(k); let m = mulm(res, fact); lemma_ppos(KK); lemma_dvd_i(p(KK), res * fact); lemma_mul_exact_real(res, fact, m); lemma_round_real(m, rs);
    let q = rpow(2real, k); lemma_p2_24(k); let l = lnr(rval(x)); let z = rval(res); let s = (ss as real) * v; assert((7 * ss + 15) as real * v == 7real * s + 15real * v) by (nonlinear_arith) requires s == (ss as real) * v;
    let t = if neg { -(2real * z) } else { 2real * z }; let d = t - l; assert(10real * rabs(d) <= 7real * s + 26real * v); let qd = q * d; let g = 7real * s + 26real * v;
    assert(10real * qd <= q * g) by (nonlinear_arith) requires qd == q * d, 10real * d <= g, q >= 1real; assert(10real * qd >= -(q * g)) by (nonlinear_arith) requires qd == q * d, 10real * d >= -g, q >= 1real;
    let ql = q * l; let qt = q * t; assert(qt == qd + ql) by (nonlinear_arith) requires qd == q * d, ql == q * l, qt == q * t, d == t - l; let qv = q * v;
    let qs = q * s; assert(q * g == 7real * qs + 26real * qv) by (nonlinear_arith) requires g == 7real * s + 26real * v, qs == q * s, qv == q * v;
    assert(100real * rabs(qt - a) <= 70real * qs + 362real * qv);
    let e = (rs + 15) as real; let qve = qv * e; assert(qs == qv * (ss as real)) by (nonlinear_arith) requires qs == q * s, s == (ss as real) * v, qv == q * v; assert(qv > 0real) by (nonlinear_arith) requires qv == q * v, q >= 1real, v > 0real;
    assert(70real * (qv * (ss as real)) + 362real * qv <= 100real * qve) by (nonlinear_arith) requires qve == qv * e, e == (rs + 15) as real, ss == rs + 8, rs >= 0, qv > 0real;
    assert(rabs(qt - a) <= qve);
    let u = r10(-rs); lemma_r10_add(-ss, 8); assert(r10(8) == 100000000real) by { reveal_with_fuel(rpow, 9); } assert(u == 100000000real * v); assert(-ss + 8 == -rs);
    let f = 1real + 25real * rabs(a); assert(q <= f); let w = v * e; assert(qve == q * w) by (nonlinear_arith) requires qve == qv * e, qv == q * v, w == v * e; assert(w > 0real) by (nonlinear_arith) requires w == v * e, v > 0real, e >= 15real; assert(q * w <= f * w) by (nonlinear_arith) requires q <= f, w > 0real;
    assert(ln_bnd(a, rs) == u / 2real + f * w) by (nonlinear_arith) requires ln_bnd(a, rs) == (1real / 2real + f * (e / 100000000real)) * u, u == 100000000real * v, w == v * e;
    // rval(fact) = 2 q
    assert(z * (2real * q) == (if neg { -qt } else { qt })) by (nonlinear_arith) requires qt == q * t, t == (if neg { -(2real * z) } else { 2real * z });
    lemma_rval_lin(0, r); assert(rval(-r) == -rval(r));
}

pub proof fn lemma_int_sz(s: Seq<i16>, w: int, m: int) requires digs(s), -99000 <= w <= 99000, s.len() - 1 - w <= 99000, V(s, w) == m * p(KK), 1 <= m < 100000000, s.len() > 0 ==> s[0] != 0 && s[s.len() - 1] != 0
    ensures 0 <= w <= 1, 1 <= s.len() <= w + 1
{
    lemma_ppos(KK); if s.len() == 0 { lemma_val_empty(s, w + KK); assert(m * p(KK) >= 1) by (nonlinear_arith) requires m >= 1, p(KK) >= 1; }
    lemma_int_scale(m); lemma_norm_frac(s, w, 0); lemma_val_first(s, w + KK); lemma_val_bounds(s, w + KK); lemma_pS(KK); lemma_pS(KK + 1); lemma_pS(KK + 2);
    if w >= 2 { lemma_pmono(KK + 2, w + KK); let q = p(KK); assert(m * q < 100000000 * q) by (nonlinear_arith) requires m < 100000000, q >= 1; }
    if w <= -1 { lemma_pmono(w + 1 + KK, KK); let q = p(KK); assert(m * q >= q) by (nonlinear_arith) requires m >= 1, q >= 1; }
}
// a normalised value below 1 with ss digits
pub proof fn lemma_frac_sz(s: Seq<i16>, w: int, ss: int) requires digs(s), -99000 <= w <= 99000, s.len() - 1 - w <= 99000, 0 <= ss <= 99000, V(s, w) < p(KK), dvd(U(ss), V(s, w)), s.len() > 0 ==> s[0] != 0 && s[s.len() - 1] != 0
    ensures s.len() > 0 ==> w <= -1 && s.len() - 1 - w <= (ss + 3) / 4 && w >= -((ss + 3) / 4) && V(s, w) > 0, s.len() == 0 ==> V(s, w) == 0
{
    if s.len() > 0 { lemma_norm_frac(s, w, ss); lemma_val_first(s, w + KK); lemma_ppos(w + KK); if w >= 0 { lemma_pmono(KK, w + KK); } } else { lemma_val_empty(s, w + KK); }
}
pub proof fn lemma_two_step(k: nat) requires k <= 24 ensures two(k + 1) == 2 * two(k), 1 <= two(k) <= 33554432, mulm(two(k) * p(KK), 2 * p(KK)) == two(k + 1) * p(KK), roundm(two(k + 1) * p(KK), 0) == two(k + 1) * p(KK)
{ lemma_two(k); lemma_rpow_ge1(2real, k, 25); assert(rpow(2real, 25) == 33554432real) by (compute); lemma_fact_scale(two(k), 2); assert((k + 1 - 1) as nat == k); }
pub proof fn lemma_tens() ensures 10 * (9000 * p(KK - 1)) == 9 * p(KK), 10 * (p(KK) + 1000 * p(KK - 1)) == 11 * p(KK), p(KK - 1) > 0 { lemma_pS(KK); lemma_pS(KK - 1); lemma_ppos(KK - 1); }
pub proof fn lemma_two_digits(s: Seq<i16>) requires s =~= seq![1i16, 1000i16] ensures V(s, 0) == p(KK) + 1000 * p(KK - 1)
{ lemma_loS(s, KK, KK); lemma_loS(s, KK, KK - 1); lemma_lo_right(s, KK, KK - 1); assert(at(s, KK - KK) == 1 && at(s, KK - (KK - 1)) == 1000); assert(1 * p(KK) == p(KK)); }

// ---- the loops of ln_common
pub proof fn lemma_ln_start(s: Seq<i16>, w: int, v: real) requires digs(s), s.len() > 0, s[0] > 0, -4096 <= w <= 32767, v > 0real
    ensures ({ let x = V(s, w); p(w + KK) <= x && x < p(w + 1 + KK) && rval(x) > 0real && rabs(lnr(rval(x))) <= 1300000real && lnst(lnr(rval(x)), rval(x), 0, v) })
{
    lemma_val_first(s, w + KK); lemma_val_bounds(s, w + KK); lemma_ppos(w + KK); let x = V(s, w); lemma_ln_size(x, w); let l = lnr(rval(x)); lemma_rpow_1(2real); assert(1real * l == l); assert(1real * v == v);
}
pub open spec fn ln_in(x: &NumericVar, a: real, k: nat, v: real, fact: &NumericVar) -> bool {
    &&& x.st() && fnz(x) && x.sign == 0 && x.mag() > 0 && x.ndigits > 0 && div_sz(x, 40000) && -4096 <= x.weight <= 32767 && x.dscale <= 16383 && p(x.weight + KK) <= x.mag() && x.mag() < p(x.weight + 1 + KK)
    &&& lnst(a, rval(x.mag()), k, v)
    &&& fact_in(fact, k + 1)
}
pub open spec fn fact_in(fact: &NumericVar, k: nat) -> bool { fact.st() && fact.norm() && fact.sign == 0 && fact.dscale == 0 && fact.mag() == two(k) * p(KK) && k <= 25 }
pub proof fn lemma_fact_pre(fact: &NumericVar, k: nat) requires fact_in(fact, k) ensures 0 <= fact.weight <= 1, 1 <= fact.ndigits <= fact.weight + 1, fact.mag() > 0, two(k) >= 1
{ lemma_two(k); lemma_nz(fact); lemma_int_sz(fact.sd(), fact.weight as int, two(k)); lemma_ppos(KK); assert(two(k) * p(KK) >= 1) by (nonlinear_arith) requires two(k) >= 1, p(KK) >= 1; }
pub proof fn lemma_fact_post(fact: &NumericVar, k: nat) requires fact.st(), fact.mag() == two(k) * p(KK), k <= 26, fact.iv() == fact.mag() ensures fact.sign == 0
{ lemma_two(k); lemma_ppos(KK); assert(two(k) * p(KK) >= 1) by (nonlinear_arith) requires two(k) >= 1, p(KK) >= 1; }
pub proof fn lemma_ln_turn(x0: &NumericVar, x: &NumericVar, ls: int, a: real, k: nat, rs: int)
    requires x0.st(), fnz(x0), x0.mag() > 0, x0.ndigits > 0, -4096 <= x0.weight <= 32767, p(x0.weight + KK) <= x0.mag(), x0.mag() < p(x0.weight + 1 + KK), lnst(a, rval(x0.mag()), k, r10(-(rs + 8))), 10 * x0.mag() <= 9 * p(KK) || 10 * x0.mag() >= 11 * p(KK),
        0 <= rs <= 1000, 0 <= ls <= 10000, ls >= rs - 2 * x0.weight + 8, rabs(a) <= 1300000real,
        x.st(), x.sign == 0, x.ndigits > 0 ==> x.ndigits - 1 - x.weight <= (ls + 11) / 4 && x.weight >= -8192, 10000 * U(ls) <= x.mag() ==> fnz(x), x.weight <= 40000, sq_err(x0.mag(), x.mag(), ls), x.dscale == ls
    ensures fnz(x), x.mag() > 0, x.ndigits > 0, div_sz(x, 40000), -4096 <= x.weight <= 32767, x.dscale <= 16383, p(x.weight + KK) <= x.mag(), x.mag() < p(x.weight + 1 + KK), lnst(a, rval(x.mag()), k + 1, r10(-(rs + 8))), k <= 23, 10 * x0.mag() >= 11 * p(KK) ==> 10 * x.mag() > 9 * p(KK)
{
    let w0 = x0.weight as int; let w = x.weight as int; let r = x.mag(); lemma_val_bounds(x.sd(), w + KK); lemma_ln_v(rs);
    lemma_ln_root(x0.mag(), r, ls, w0, rs); lemma_red(x0.mag()); lemma_ln_step(a, rval(x0.mag()), rval(r), k, r10(-(rs + 8)));
    if x.ndigits == 0 { lemma_val_empty(x.sd(), w + KK); } lemma_val_first(x.sd(), w + KK); lemma_ppos(w + KK);
    if w <= -4097 { if w0 <= -1 { lemma_pmono(w + 1 + KK, w0 + KK); } else { lemma_pmono(w + 1 + KK, KK - 1); } }
    if w >= 32768 { lemma_pmono(w0 + 1 + KK, w + KK); lemma_pmono(KK + 1, w + KK); lemma_pS(KK + 1); lemma_ppos(KK); }
}
pub proof fn lemma_ln_quot(r: &NumericVar, x: int, ss: int)
    requires r.st(), r.norm(), red_ok(x), 8 <= ss <= 1008, fast_err(iabs(x - p(KK)), x + p(KK), r.mag(), ss), dvd(U(ss), r.mag())
    ensures 0 <= r.mag() < p(KK), r.ndigits > 0 ==> r.weight <= -1 && r.ndigits - 1 - r.weight <= (ss + 3) / 4 && r.weight >= -((ss + 3) / 4), r.ndigits <= 255
{
    lemma_val_bounds(r.sd(), r.weight + KK); lemma_ppos(KK); lemma_ser_v(ss); let v = r10(-ss); let y = x + p(KK); lemma_quot_real(iabs(x - p(KK)), y, r.mag(), ss); lemma_red(x); lemma_rval_lin(x, p(KK)); lemma_rval_lin(p(KK), x); lemma_rval_lin(x, -p(KK));
    let c = rval(r.mag()); let z = rval(y); let n = rval(iabs(x - p(KK))); assert(rval(x + p(KK)) == rval(x) + rval(p(KK))); assert(n <= 1real / 10real);
    let vz = v * z; assert(100000000real * vz <= z) by (nonlinear_arith) requires vz == v * z, 100000000real * v <= 1real, z > 0real;
    assert(c < 1real) by (nonlinear_arith) requires c * z <= n + z / 100real, n <= 1real / 10real, 10real * z >= 19real;
    lemma_rval_lin(p(KK), r.mag()); lemma_frac_sz(r.sd(), r.weight as int, ss);
}
pub open spec fn ser_res(result: &NumericVar, ss: int, neg: bool, b: real) -> bool {
    result.st() && result.norm() && result.mag() < p(KK) && dvd(U(ss), result.mag()) && result.iv() == sg(neg, result.mag()) && 10real * rabs(lnq(b) - 2real * rval(result.mag())) <= (7 * ss + 15) as real * r10(-ss)
}
pub open spec fn ser_in(xx: &NumericVar, x: &NumericVar, result: &NumericVar, ni: &NumericVar, b: real, i: nat, ss: int, neg: bool) -> bool {
    &&& ser_ok(b, i, xx.mag(), x.mag(), result.mag(), ss)
    &&& xx.st() && xx.norm() && dvd(U(ss), xx.mag()) && xx.dscale == ss && xx.iv() == sg(neg, xx.mag())
    &&& x.st() && x.norm() && dvd(U(ss), x.mag()) && x.sign == 0
    &&& result.st() && result.norm() && dvd(U(ss), result.mag()) && result.dscale == ss && result.iv() == sg(neg, result.mag())
    &&& ni.st() && ni.norm() && ni.dscale == 0 && ni.sign == 0 && ni.mag() == (2 * i + 1) * p(KK)
}
pub open spec fn small(v: &NumericVar, ss: int) -> bool { v.ndigits <= 255 && (v.ndigits > 0 ==> -255 <= v.weight <= -1 && v.ndigits - 1 - v.weight <= (ss + 3) / 4) && (v.ndigits == 0 ==> v.weight == 0) }
pub proof fn lemma_ser_pre(xx: &NumericVar, x: &NumericVar, result: &NumericVar, ni: &NumericVar, b: real, i: nat, ss: int, neg: bool) requires ser_in(xx, x, result, ni, b, i, ss, neg)
    ensures small(xx, ss), small(x, ss), small(result, ss), 0 <= ni.weight <= 1, 1 <= ni.ndigits <= ni.weight + 1, xx.mag() < p(KK), x.mag() < p(KK), result.mag() < p(KK), 0 <= 2 * i <= ss, 8 <= ss <= 1008, U(ss) > 0
{
    lemma_ser_v(ss); lemma_ser_sz(b, i, xx.mag(), x.mag(), result.mag(), ss); lemma_frac_sz(xx.sd(), xx.weight as int, ss); lemma_frac_sz(x.sd(), x.weight as int, ss); lemma_frac_sz(result.sd(), result.weight as int, ss); lemma_int_sz(ni.sd(), ni.weight as int, 2 * i as int + 1);
}
pub proof fn lemma_ni(ni: &NumericVar, i: nat) requires ni.st(), ni.norm(), ni.iv() == (2 * i + 1) * p(KK) + 2 * p(KK), i <= 1008 ensures ni.mag() == (2 * i + 3) * p(KK), ni.sign == 0, 0 <= ni.weight <= 1, 1 <= ni.ndigits <= ni.weight + 1, ni.sd()[0] > 0, (2 * (i + 1) + 1) * p(KK) == (2 * i + 3) * p(KK)
{
    lemma_ppos(KK); let q = p(KK); lemma_val_bounds(ni.sd(), ni.weight + KK); assert((2 * i + 1) * q + 2 * q == (2 * i + 3) * q && (2 * i + 3) * q > 0 && (2 * (i + 1) + 1) * q == (2 * i + 3) * q) by (nonlinear_arith) requires i >= 0, q >= 1;
    lemma_int_sz(ni.sd(), ni.weight as int, 2 * i as int + 3);
}
pub proof fn lemma_ser_y(b: real, i: nat, xx: int, s: int, y: int, res: int, ss: int, k: int) requires ser_ok(b, i, xx, s, res, ss), mul_near(xx, s, y, ss, k), 0 <= k <= 390, y >= 0 ensures y < p(KK)
{
    let v = r10(-ss); lemma_ser_v(ss); let cc = 10002 + 2 * k; lemma_near_real(xx, s, y, ss, k, cc); let c = cc as real; assert(c * v <= 10800real * v) by (nonlinear_arith) requires c <= 10800real, v > 0real;
    lemma_ser_fall(b, i); let bn = rpow(b, 2 * i + 1); lemma_rval_lin(0, s); lemma_rval_lin(0, xx); lemma_rval_lin(0, y); lemma_ser_mul(b, bn, rval(xx), rval(s), rval(y), v); lemma_rval_lin(p(KK), y);
}
pub proof fn lemma_mul_zero(y: int, r: int, rs: int, n: int) requires mul_near(0, y, r, rs, n), dvd(U(rs), r), r >= 0, 0 <= rs <= 99000 ensures r == 0
{
    lemma_ppos(KK); lemma_rval_U(rs); let u = U(rs); let q = p(KK); assert(0 * y == 0);
    if r > 0 { let j = lemma_mult(u, r); assert(r >= u) by (nonlinear_arith) requires r == j * u, j >= 1, u > 0; assert(2 * (r * q) > u * q) by (nonlinear_arith) requires r >= u, u > 0, q >= 1; }
}
// signs: the second factor is positive
pub proof fn lemma_sign(a: &NumericVar, f: &NumericVar, r: &NumericVar, neg: bool)
    requires a.st(), f.st(), r.st(), f.sign == 0, a.iv() == sg(neg, a.mag()), r.iv() == (if a.sign == f.sign { r.mag() } else { -r.mag() }), a.mag() == 0 ==> r.mag() == 0, a.mag() >= 0
    ensures r.iv() == sg(neg, r.mag())
{ }
pub proof fn lemma_ser_end(r: &NumericVar, fact: &NumericVar, ss: int, rs: int) requires r.st(), r.norm(), r.mag() < p(KK), dvd(U(ss), r.mag()), ss == rs + 8, 0 <= rs <= 1000, fact.st(), 0 <= fact.weight <= 1, 1 <= fact.ndigits <= fact.weight + 1
    ensures mul_sz(r, fact, rs), mul_ok(r, fact, rs), r.mag() >= 0
{ lemma_val_bounds(r.sd(), r.weight + KK); lemma_frac_sz(r.sd(), r.weight as int, ss); }

// ---- the estimated size of the logarithm
pub open spec fn ln_dw(x: int, d: int) -> bool {
    let a = rabs(lnr(rval(x))); -99000 <= d <= 10 && if x == p(KK) { d == 0 } else { 10real * a >= 9real * r10(d - 1) && 100real * a <= 112real * r10(d + 1) }
}
pub proof fn lemma_dw_one(x: int) requires x == p(KK) ensures ln_dw(x, 0), lnr(rval(x)) == 0real
{ lemma_rval_p(0); lemma_r10_S(0); ax_ln(1real, 1real); assert(1real * 1real == 1real) by (nonlinear_arith); }
// near 1: the logarithm is about x - 1, whose first digit is m * 10^(4w)
pub proof fn lemma_dw_near(x: int, y: int, m: int, w: int, l: int)
    requires red_ok(x), y == iabs(x - p(KK)), y > 0, 1 <= m <= 9999, l == ndg(m) - 1, -20000 <= w <= 0, m * p(w + KK) <= y < (m + 1) * p(w + KK)
    ensures ln_dw(x, 4 * w + l), 0 <= l <= 3
{
    lemma_red(x); let X = rval(x); let Y = rval(y); lemma_rval_p(0); lemma_r10_S(0); lemma_rval_lin(x, p(KK)); lemma_rval_lin(p(KK), x); assert(Y == rabs(X - 1real)); lemma_rval_p(w); lemma_rval_mul(m, p(w + KK)); lemma_rval_mul(m + 1, p(w + KK)); lemma_rval_lin(m * p(w + KK), y); lemma_rval_lin(y, (m + 1) * p(w + KK)); lemma_rval_lin(0, y);
    let u = r10(4 * w); lemma_r10_S(4 * w); lemma_r10_S(4 * w + 1); lemma_r10_S(4 * w + 2); lemma_r10_S(4 * w + 3); lemma_r10_S(4 * w - 1); let d = 4 * w + l; let mr = m as real;
    assert(mr * u >= r10(d) && (mr + 1real) * u <= r10(d + 1)) by {
        if l == 0 { assert(mr * u >= u && (mr + 1real) * u <= 10real * u) by (nonlinear_arith) requires 1real <= mr <= 9real, u > 0real; }
        else if l == 1 { assert(mr * u >= 10real * u && (mr + 1real) * u <= 100real * u) by (nonlinear_arith) requires 10real <= mr <= 99real, u > 0real; }
        else if l == 2 { assert(mr * u >= 100real * u && (mr + 1real) * u <= 1000real * u) by (nonlinear_arith) requires 100real <= mr <= 999real, u > 0real; }
        else { assert(mr * u >= 1000real * u && (mr + 1real) * u <= 10000real * u) by (nonlinear_arith) requires 1000real <= mr <= 9999real, u > 0real; }
    }
    ax_ln(X, X); let i = 1real / X; assert(i * X == 1real) by (nonlinear_arith) requires i == 1real / X, X > 0real; let a = lnr(X);
    if X >= 1real { assert(100real * (1real - i) >= 90real * Y) by (nonlinear_arith) requires i * X == 1real, Y == X - 1real, 10real <= 10real * X <= 11real; }
    else { assert(100real * (i - 1real) <= 112real * Y) by (nonlinear_arith) requires i * X == 1real, Y == 1real - X, 9real <= 10real * X <= 10real; }
    lemma_r10_S(d - 1);
}
// elsewhere: from the first one or two digits in floating point
pub proof fn lemma_dw_head(s: Seq<i16>, w: int, k: int, h: int)
    requires digs(s), s.len() >= 1, s[0] > 0, k == imin(s.len() as int, 2), h == hs(s, k), -98000 <= w <= 98000, s.len() - 1 - w <= 99000
    ensures 1 <= h <= 99999999, rval(V(s, w)) > 0real, 10000real * rabs(lnr(rval(V(s, w))) - (lnr(h as real) + lnr(10real) * ((4 * (w - k + 1)) as real))) <= 1real
{
    let top = w + KK; let c = top + 1 - k; lemma_val_cut(s, top, k); lemma_hs_val(s, k); lemma_lo_bounds(s, top, c); let l = lo(s, top, c); let pc = p(c); lemma_hs(s);
    lemma_val_first(s, k - 1); lemma_val_bounds(s, k - 1); assert(c == (w + 1 - k) + KK); lemma_rval_p(w + 1 - k); lemma_ppos(c); let dw = 4 * (w + 1 - k); lemma_r10_S(dw);
    assert(V(s, w) == h * pc + l); let x = rval(V(s, w)); let hr = h as real;
    lemma_rval_lin(h * pc, l); lemma_rval_lin(0, l); lemma_rval_lin(l, pc); lemma_rval_mul(h, pc); let u = r10(dw); assert((hr + 1real) * u == hr * u + u) by (nonlinear_arith);
    if s.len() == 1 { lemma_val_shift(s, k - 1, c); assert(top == k - 1 + c); assert(l == 0); }
    let y = x / u; assert(y * u == x) by (nonlinear_arith) requires y == x / u, u > 0real;
    assert(hr <= y <= hr + 1real) by (nonlinear_arith) requires hr * u <= y * u <= (hr + 1real) * u, u > 0real;
    if s.len() == 1 { assert(y == hr) by (nonlinear_arith) requires y * u == hr * u, u > 0real; }
    ax_ln(y, u); ax_ln10(u); lemma_lg_r10(dw); assert(lnr(u) == lnr(10real) * (dw as real)); assert(x > 0real) by (nonlinear_arith) requires x == y * u, y > 0real, u > 0real;
    let f = y / hr; assert(f * hr == y) by (nonlinear_arith) requires f == y / hr, hr > 0real; assert(f >= 1real) by (nonlinear_arith) requires f * hr >= hr, hr > 0real; ax_ln(f, hr); ax_ln(hr, hr); ax_ln(f, f); let j = 1real / f; assert(j <= 1real) by (nonlinear_arith) requires j == 1real / f, f >= 1real;
    if s.len() == 1 { assert(f == 1real) by (nonlinear_arith) requires f * hr == hr, hr > 0real; } else { assert(hr >= 10000real); assert(10000real * (f - 1real) <= 1real) by (nonlinear_arith) requires f * hr <= hr + 1real, hr >= 10000real; }
}
pub proof fn lemma_dw_fl(h: int, dw: int, f0: real, f1: real, f2: real, c10: real, lx: real)
    requires 1 <= h <= 99999999, -140000 <= dw <= 140000, rabs(1000000real * f0 - 2302585real * lg(h as real)) <= 1000real, 2302585092real <= 1000000000real * c10 <= 2302585093real, near(f1, dw as real * c10), near(f2, f0 + f1),
        10000real * rabs(lx - (lnr(h as real) + lnr(10real) * (dw as real))) <= 1real
    ensures 10000real * rabs(f2 - lx) <= 16real, rabs(lx) <= 330000real
{
    let hr = h as real; let d = dw as real; ax_ln10(hr); let e = lnr(10real); let g = lg(hr); let q = lg(10real); lemma_lg_lt(hr, 0); lemma_lg_lt(hr, 8); lemma_r10_S(0); lemma_r10_S(-1); assert(r10(8) == 100000000real) by { reveal_with_fuel(rpow, 9); }
    assert(rabs(d * c10 - e * d) <= 2real / 10000real) by (nonlinear_arith) requires -140000real <= d <= 140000real, 2302585092real <= 1000000000real * c10 <= 2302585093real, 2302585092real <= 1000000000real * e <= 2302585093real;
    assert(rabs(e * d) <= 323000real) by (nonlinear_arith) requires -140000real <= d <= 140000real, 2302585092real <= 1000000000real * e <= 2302585093real;
    assert(rabs(1000000000real * (e * g) - 2302585000real * g) <= 1000real) by (nonlinear_arith) requires 0real <= g <= 8real, 2302585092real <= 1000000000real * e <= 2302585093real;
}
pub proof fn lemma_dw_far(x: int, f2: real, f3: real, d: int)
    requires rval(x) > 0real, 10 * x <= 9 * p(KK) || 10 * x >= 11 * p(KK), 10000real * rabs(f2 - lnr(rval(x))) <= 16real, rabs(lnr(rval(x))) <= 330000real, rabs(f3 - lg(rabs(f2))) * 100000000000000real <= 1real, tr(f3, d)
    ensures ln_dw(x, d)
{
    lemma_red(x); lemma_ln_far(rval(x)); let l = rabs(f2); let a = rabs(lnr(rval(x))); let g = lg(l); let c = 101real / 100real; let ci = 1real / c;
    ax_ln(c, c); ax_ln10(c); assert(1000real * (lg(c)) >= 1real) by (nonlinear_arith) requires lnr(10real) * lg(c) >= 99real / 10000real, 2302585092real <= 1000000000real * lnr(10real) <= 2302585093real;
    ax_lg(l, c); lemma_lg_inv(c); ax_lg(l, ci); let up = l * c; let dn = l * ci; assert(up > 0real && dn > 0real && dn * 101real == 100real * l) by (nonlinear_arith) requires up == l * c, dn == l * ci, l > 0real, c == 101real / 100real, ci == 1real / c;
    lemma_r10_S(d - 1); lemma_r10_S(d); lemma_rval_p(0); lemma_r10_S(0);
    lemma_lg_lt(l, 6); lemma_lg_lt(l, -2); assert(r10(6) == 1000000real && r10(-2) == 1real / 100real) by { reveal_with_fuel(rpow, 7); }
    if f3 >= 0real { lemma_lg_lt(up, d); lemma_lg_lt(dn, d + 1); } else { lemma_lg_lt(up, d - 1); lemma_lg_lt(dn, d); }
    assert(100real * a >= 98real * l && 100real * a <= 102real * l);
}
pub proof fn lemma_dw_one_size(x: int, d: &NumericVar) requires d.st(), d.norm(), d.iv() == x - p(KK), red_ok(x) ensures d.mag() == iabs(x - p(KK)), d.mag() >= 0, d.ndigits == 0 ==> x == p(KK)
{ lemma_nz(d); lemma_nz0(d); }
pub proof fn lemma_dw_digit(x: int, d: &NumericVar) requires d.st(), d.norm(), d.iv() == x - p(KK), red_ok(x), d.ndigits > 0
    ensures 1 <= d.sd()[0] <= 9999, d.sd()[0] == d.digits.ds()[0], d.weight <= 0, d.mag() == iabs(x - p(KK)), d.mag() > 0, d.sd()[0] * p(d.weight + KK) <= d.mag(), d.mag() < (d.sd()[0] + 1) * p(d.weight + KK)
{ lemma_nz(d); lemma_nz0(d); let w = d.weight as int; lemma_val_first(d.sd(), w + KK); if w >= 1 { lemma_pmono(KK + 1, w + KK); lemma_pS(KK + 1); lemma_ppos(KK); } }
pub proof fn lemma_dw_safe(h: int, dw: int, f0: real, c10: real) requires 1 <= h <= 99999999, -140000 <= dw <= 140000, 2302585092real <= 1000000000real * c10 <= 2302585093real, rabs(1000000real * f0 - 2302585real * lg(h as real)) <= 1000real
    ensures fsafe(dw as real * c10), rabs(f0) <= 20real, rabs(dw as real * c10) <= 330000real
{
    let hr = h as real; let d = dw as real; lemma_lg_lt(hr, 0); lemma_lg_lt(hr, 8); lemma_r10_S(0); assert(r10(8) == 100000000real) by { reveal_with_fuel(rpow, 9); }
    assert(rabs(d * c10) <= 330000real) by (nonlinear_arith) requires -140000real <= d <= 140000real, 2302585092real <= 1000000000real * c10 <= 2302585093real;
}
pub proof fn lemma_dw_safe2(h: int, dw: int, f0: real, c10: real, f1: real) requires 1 <= h <= 99999999, rabs(f0) <= 20real, rabs(dw as real * c10) <= 330000real, near(f1, dw as real * c10) ensures fsafe(f0 + f1) { }
pub proof fn lemma_dw_trunc(f2: real, f3: real) requires 80real <= 1000real * rabs(f2), rabs(f2) <= 330001real, rabs(f3 - lg(rabs(f2))) * 100000000000000real <= 1real ensures -3real <= f3 <= 7real
{ let l = rabs(f2); lemma_lg_lt(l, 6); lemma_lg_lt(l, -2); assert(r10(6) == 1000000real && r10(-2) == 1real / 100real) by { reveal_with_fuel(rpow, 7); } }
// what ln returns: the scale that gives 15 significant digits (at most 1000, at least the argument's), and the error
pub open spec fn ln_scale(x: int, dx: int, ds: int) -> bool { exists|d: int| #[trigger] ln_dw(x, d) && ds == imin(imax(imax(16 - d, dx), 0), 1000) }
pub open spec fn ln_res(x: NView, r: int, ds: int) -> bool { ln_err(x.mag(), r, ds) && ln_scale(x.mag(), x.dscale, ds) }
pub proof fn lemma_ln_res(x: int, r: int, dx: int, d: int, ds: int) requires ln_dw(x, d), ds == imin(imax(imax(16 - d, dx), 0), 1000), ln_err(x, r, ds) ensures ln_scale(x, dx, ds) { }
pub proof fn lemma_ln_fits(x: int, w: int, s: Seq<i16>, i: int, r: int, ds: int) requires x == V(s, w), digs(s), s.len() > 0, s[0] > 0, -4096 <= w <= 32767, r >= 0, i == r || i == -r, 0 <= ds <= 1000, dvd(U(ds), r), ln_err(x, i, ds) ensures fits(r, ds)
{
    lemma_ln_start(s, w, 1real); lemma_ln_size(x, w); let a = lnr(rval(x)); let u = r10(-ds); lemma_r10_S(-ds); lemma_r10_mono(-ds, 0); lemma_r10_S(0); let b = ln_bnd(a, ds);
    let c = 1real / 2real + (1real + 25real * rabs(a)) * ((ds + 15) as real / 100000000real); assert(c <= 100real) by (nonlinear_arith) requires c == 1real / 2real + (1real + 25real * rabs(a)) * ((ds + 15) as real / 100000000real), 0real <= rabs(a) <= 310000real, 0 <= ds <= 1000;
    assert(0real <= c) by (nonlinear_arith) requires c == 1real / 2real + (1real + 25real * rabs(a)) * ((ds + 15) as real / 100000000real), 0real <= rabs(a), 0 <= ds;
    assert(c * u <= 100real) by (nonlinear_arith) requires 0real <= c <= 100real, 0real < u <= 1real; lemma_rval_lin(0, r); assert(rval(-r) == -rval(r)); assert(rval(r) <= 400000real);
    lemma_rval_p(2); assert(r10(8) == 100000000real) by { reveal_with_fuel(rpow, 9); } lemma_rval_lin(p(2 + KK), r); lemma_pmono(2 + KK, KK + 32768);
    lemma_U(ds); let v = U(ds); lemma_ppos(KK); lemma_pmono(KK - 32767, KK - 250); lemma_pt(KK - 250); lemma_tmono(4 * (KK - 250), 4 * KK - ds); lemma_pmono(KK - 32767, KK - 250);
    if r > 0 { let k = lemma_mult(v, r); assert(r >= v) by (nonlinear_arith) requires r == k * v, k >= 1, v >= 0; }
}
