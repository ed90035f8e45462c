// ---------------------------------------------------------------- C08: parsing, on byte sequences
use vstd::string::StringSliceAdditionalSpecFns;
pub assume_specification [u8::is_ascii_digit] (x: &u8) -> (r: bool) ensures r == digitc(*x);
pub assume_specification [u8::is_ascii_whitespace] (x: &u8) -> (r: bool) ensures r == wsc(*x);
pub open spec fn wsc(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 12 || c == 13 }
// library idioms of the parser
pub fn vcopied(o: Option<&u8>) -> (r: Option<u8>) ensures o is Some <==> r is Some, o matches Some(x) ==> r == Some(*x) { match o { Some(x) => Some(*x), None => None } }
pub fn vlit<'a, const N: usize>(a: &'a [u8; N]) -> (r: &'a [u8]) ensures r@ == a@ { a.as_slice() }
#[verifier::external_body] pub fn vrepeat<'a>(x: u8, n: usize) -> (r: &'a [u8]) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
#[verifier::external_body] pub fn vtry_arr<const N: usize>(s: &[u8]) -> (r: Option<[u8; N]>) ensures r is Some <==> s@.len() == N, r matches Some(a) ==> a@ == s@ { unimplemented!() }
pub open spec fn lowc(c: u8) -> u8 { if 65 <= c <= 90 { (c + 32) as u8 } else { c } }
#[verifier::external_body] pub fn vlower<const N: usize>(a: &mut [u8; N]) ensures final(a)@ == Seq::new(old(a)@.len(), |i: int| lowc(old(a)@[i])) { unimplemented!() }
#[verifier::external_body] pub fn veq_bytes<const N: usize>(a: &[u8; N], b: &[u8; N]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// slice.chunks_exact(k).take(n)
pub struct VChunks<'a> { pub s: &'a [u8], pub k: usize, pub n: usize }
pub fn vchunks_take<'a>(s: &'a [u8], k: usize, n: usize) -> (r: VChunks<'a>) requires k > 0 ensures r.s@ == s@, r.k == k, r.n == (if n <= s@.len() as int / k as int { n as int } else { s@.len() as int / k as int })
{ let m = s.len() / k; VChunks { s, k, n: if n <= m { n } else { m } } }
impl<'a> VChunks<'a> {
    pub open spec fn wf(&self) -> bool { self.k > 0 && self.n <= self.s@.len() as int / self.k as int }
    pub fn vlen(&self) -> (r: usize) ensures r == self.n { self.n }
    pub fn vget(&self, i: usize) -> (r: &'a [u8]) requires self.wf(), i < self.n ensures r@ == self.s@.subrange(i * self.k, i * self.k + self.k)
    {
        let len = self.s.len();
        proof { assert(len == self.s@.len()); let q = self.s@.len() as int / self.k as int; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(self.s@.len() as int, self.k as int); vstd::arithmetic::div_mod::lemma_mod_pos_bound(self.s@.len() as int, self.k as int); assert(self.k * q <= self.s@.len());
            assert(i * self.k + self.k <= self.k * q) by (nonlinear_arith) requires i + 1 <= q, self.k > 0, i >= 0; assert(0 <= i * self.k) by (nonlinear_arith) requires i >= 0, self.k > 0; }
        let a = i * self.k; &self.s[a..a + self.k]
    }
}

// ---- the language, maximal munch
pub open spec fn sfrom(b: Seq<u8>, i: int) -> Seq<u8> { b.subrange(i, b.len() as int) }
pub open spec fn is_run(b: Seq<u8>, n: int) -> bool { 0 <= n <= b.len() && (forall|i: int| 0 <= i < n ==> digitc(#[trigger] b[i])) && (n < b.len() ==> !digitc(b[n])) }
pub open spec fn is_wrun(b: Seq<u8>, n: int) -> bool { 0 <= n <= b.len() && (forall|i: int| 0 <= i < n ==> wsc(#[trigger] b[i])) && (n < b.len() ==> !wsc(b[n])) }
// length of the leading run of digits / white space
pub open spec fn run(b: Seq<u8>) -> int { choose|n: int| is_run(b, n) }
pub open spec fn wrun(b: Seq<u8>) -> int { choose|n: int| is_wrun(b, n) }
pub proof fn lemma_run(b: Seq<u8>, n: int) requires is_run(b, n) ensures run(b) == n
{ let m = run(b); assert(is_run(b, m)); if m < n { assert(digitc(b[m])); } else if n < m { assert(digitc(b[n])); } }
pub proof fn lemma_wrun(b: Seq<u8>, n: int) requires is_wrun(b, n) ensures wrun(b) == n
{ let m = wrun(b); assert(is_wrun(b, m)); if m < n { assert(wsc(b[m])); } else if n < m { assert(wsc(b[n])); } }
pub open spec fn all_w(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> wsc(#[trigger] b[i]) }
pub open spec fn all_d(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> digitc(#[trigger] b[i]) }
pub open spec fn sg_neg(b: Seq<u8>) -> bool { b.len() > 0 && b[0] == 45 }
pub open spec fn sg_n(b: Seq<u8>) -> int { if b.len() > 0 && (b[0] == 43 || b[0] == 45) { 1 } else { 0 } }
pub open spec fn ec(c: u8) -> bool { c == 101 || c == 69 }
// decimal value of ASCII digits / of digit values
pub open spec fn dv(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 { 0 } else { dv(b.drop_last()) * 10 + (b.last() - 48) } }
pub open spec fn dvv(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 { 0 } else { dvv(b.drop_last()) * 10 + b.last() } }
pub struct SDec { pub neg: bool, pub ip: Seq<u8>, pub fp: Seq<u8>, pub e: int, pub rest: Seq<u8> }
pub open spec fn sp_exp(b: Seq<u8>) -> Result<(int, Seq<u8>), ParseErrorKind> {
    let c = sfrom(b, sg_n(b)); let n = run(c); let v = dv(c.subrange(0, n));
    if n == 0 { Err(ParseErrorKind::Invalid) } else if v >= 1073741823 { Err(ParseErrorKind::Overflow) } else { Ok((if sg_neg(b) { -v } else { v }, sfrom(c, n))) }
}
pub open spec fn with_exp(neg: bool, ip: Seq<u8>, fp: Seq<u8>, b: Seq<u8>) -> Result<SDec, ParseErrorKind> {
    match sp_exp(b) { Err(k) => Err(k), Ok(x) => Ok(SDec { neg, ip, fp, e: x.0, rest: x.1 }) }
}
pub open spec fn sp_dec(b: Seq<u8>) -> Result<SDec, ParseErrorKind> {
    let neg = sg_neg(b); let c = sfrom(b, sg_n(b)); let n = run(c); let ip = c.subrange(0, n); let r = sfrom(c, n);
    if r.len() > 0 && r[0] == 46 {
        let g = sfrom(r, 1); let m = run(g); let fp = g.subrange(0, m); let h = sfrom(g, m);
        if n == 0 && m == 0 { Err(ParseErrorKind::Invalid) } else if h.len() > 0 && ec(h[0]) { with_exp(neg, ip, fp, sfrom(h, 1)) } else { Ok(SDec { neg, ip, fp, e: 0, rest: h }) }
    } else if n == 0 { Err(ParseErrorKind::Invalid) }
    else if r.len() > 0 && ec(r[0]) { with_exp(neg, ip, Seq::empty(), sfrom(r, 1)) }
    else { Ok(SDec { neg, ip, fp: Seq::empty(), e: 0, rest: r }) }
}
pub enum SParse { Bad(ParseErrorKind), NaN, Num(SDec) }
pub open spec fn is_nanw(c: Seq<u8>) -> bool { c.len() >= 3 && lowc(c[0]) == 110 && lowc(c[1]) == 97 && lowc(c[2]) == 110 }
pub open spec fn sp_parse(b: Seq<u8>) -> SParse {
    let c = sfrom(b, wrun(b));
    if c.len() == 0 { SParse::Bad(ParseErrorKind::Empty) }
    else if is_nanw(c) { if all_w(sfrom(c, 3)) { SParse::NaN } else { SParse::Bad(ParseErrorKind::Invalid) } }
    else { match sp_dec(c) { Err(k) => SParse::Bad(k), Ok(d) => if all_w(d.rest) { SParse::Num(d) } else { SParse::Bad(ParseErrorKind::Invalid) } } }
}
// scale and magnitude (units of 10000^-KK) of the denoted number
pub open spec fn psc(d: SDec) -> int { if d.fp.len() - d.e < 0 { 0 } else { d.fp.len() - d.e } }
pub open spec fn pmag(d: SDec) -> int { dv(d.ip + d.fp) * t(4 * KK + d.e - d.fp.len()) }
pub open spec fn piv(d: SDec) -> int { if d.neg { -pmag(d) } else { pmag(d) } }
pub open spec fn parsed(ret: Result<NumericBuf, NumericParseError>, b: Seq<u8>) -> bool {
    match sp_parse(b) {
        SParse::Bad(k) => ret matches Err(e) && e.kind == k,
        SParse::NaN => ret matches Ok(r) && r.nv() == nan_view(),
        SParse::Num(d) => if fits(iabs(piv(d)), psc(d)) { ret matches Ok(r) && r.nv().is(piv(d), psc(d)) } else { ret matches Err(e) && e.kind is Overflow },
    }
}
// ---- decimal values
pub proof fn lemma_dvv_cat(a: Seq<u8>, b: Seq<u8>) ensures dvv(a + b) == dvv(a) * t(b.len() as int) + dvv(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); lemma_t0(); } else {
        let c = b.drop_last(); assert((a + b).drop_last() =~= a + c); lemma_dvv_cat(a, c); lemma_tS(b.len() as int); let u = t(b.len() - 1);
        assert((dvv(a) * u) * 10 == dvv(a) * (10 * u)) by (nonlinear_arith);
    }
}
pub proof fn lemma_dvv_zero(a: Seq<u8>) requires forall|i: int| 0 <= i < a.len() ==> a[i] == 0 ensures dvv(a) == 0 decreases a.len() { if a.len() > 0 { lemma_dvv_zero(a.drop_last()); } }
pub proof fn lemma_dvv_bounds(a: Seq<u8>) requires forall|i: int| 0 <= i < a.len() ==> a[i] <= 9 ensures 0 <= dvv(a) < t(a.len() as int) decreases a.len() { lemma_t0(); if a.len() > 0 { lemma_dvv_bounds(a.drop_last()); lemma_tS(a.len() as int); } }
pub proof fn lemma_dvv_dv(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i] - 48 ensures dvv(a) == dv(b) decreases a.len() { if a.len() > 0 { lemma_dvv_dv(a.drop_last(), b.drop_last()); } }
pub proof fn lemma_dv_bounds(a: Seq<u8>) requires all_d(a) ensures 0 <= dv(a) < t(a.len() as int), a.len() > 0 && a[0] != 48 ==> dv(a) >= t(a.len() - 1) decreases a.len()
{ lemma_t0(); if a.len() > 0 { let c = a.drop_last(); assert(digitc(a.last())); assert forall|i: int| 0 <= i < c.len() implies digitc(#[trigger] c[i]) by { assert(digitc(a[i])); } lemma_dv_bounds(c); lemma_tS(a.len() as int); if a.len() > 1 { lemma_tS(a.len() - 1); } } }
pub proof fn lemma_dv_lead(a: Seq<u8>) requires a.len() > 0, a[0] == 48 ensures dv(a) == dv(sfrom(a, 1)) decreases a.len()
{ let c = sfrom(a, 1); if a.len() == 1 { assert(c =~= Seq::empty()); assert(a.drop_last() =~= Seq::empty()); assert(dv(a.drop_last()) == 0); assert(a.last() == 48); assert(dv(a) == 0); assert(dv(c) == 0); } else { lemma_dv_lead(a.drop_last()); assert(sfrom(a.drop_last(), 1) =~= c.drop_last()); } }
// digits in groups of four, most significant first, starting at index st
pub proof fn lemma_groups(s: Seq<i16>, e: Seq<u8>, st: int, n: int) requires 0 <= st, 0 <= n <= s.len(), st + 4 * n <= e.len(), forall|i: int| 0 <= i < st ==> e[i] == 0,
        forall|i: int| 0 <= i < n ==> #[trigger] s[i] == dvv(e.subrange(st + 4 * i, st + 4 * i + 4))
    ensures val(s, n - 1) == dvv(e.subrange(0, st + 4 * n)) decreases n
{
    if n == 0 { lemma_val_empty0(s); lemma_dvv_zero(e.subrange(0, st)); } else {
        lemma_groups(s, e, st, n - 1); lemma_val_step(s, n - 1); lemma_t0();
        let a = e.subrange(0, st + 4 * (n - 1)); let b = e.subrange(st + 4 * (n - 1), st + 4 * (n - 1) + 4);
        assert(a + b =~= e.subrange(0, st + 4 * n)); lemma_dvv_cat(a, b); assert(s[n - 1] == dvv(b)); assert(10000 * dvv(a) == dvv(a) * 10000);
    }
}
// four zeros, the digits, zeros
pub proof fn lemma_padded(e: Seq<u8>, b: Seq<u8>, r: int) requires r >= 0, e.len() == 4 + b.len() + r, forall|i: int| 0 <= i < 4 ==> e[i] == 0, forall|i: int| 0 <= i < b.len() ==> #[trigger] e[4 + i] == b[i] - 48, forall|i: int| 4 + b.len() <= i < e.len() ==> e[i] == 0
    ensures dvv(e) == dv(b) * t(r)
{
    let z = e.subrange(0, 4); let d = e.subrange(4, 4 + b.len() as int); let y = e.subrange(4 + b.len() as int, e.len() as int);
    assert(z + d + y =~= e); lemma_dvv_cat(z + d, y); lemma_dvv_cat(z, d); lemma_dvv_zero(z); lemma_dvv_zero(y);
    assert forall|i: int| 0 <= i < d.len() implies d[i] == b[i] - 48 by { assert(e[4 + i] == b[i] - 48); }
    lemma_dvv_dv(d, b); assert(0 * t(d.len() as int) == 0);
}
// the value of the parsed digits
pub proof fn lemma_parse_value(s: Seq<i16>, w: int, e: Seq<u8>, b: Seq<u8>, off: int, fl: int, x: int)
    requires b.len() >= 1, 0 <= fl <= b.len(), 0 <= off <= 3, 4 * (w + 1) - off == b.len() - fl + x, s.len() == (b.len() + off + 3) / 4, fl - x <= 16383, e.len() == b.len() + 8,
        forall|i: int| 0 <= i < 4 ==> e[i] == 0, forall|i: int| 0 <= i < b.len() ==> #[trigger] e[4 + i] == b[i] - 48, forall|i: int| 4 + b.len() <= i < e.len() ==> e[i] == 0,
        forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == dvv(e.subrange(4 - off + 4 * i, 4 - off + 4 * i + 4)),
    ensures V(s, w) == dv(b) * t(4 * KK + x - fl), w >= -99000, s.len() - 1 - w <= 99000
{
    let n = s.len() as int; let r = 4 * n - off - b.len(); let st = 4 - off;
    assert(0 <= r <= 3);
    lemma_groups(s, e, st, n);
    let e1 = e.subrange(0, st + 4 * n); lemma_padded(e1, b, r);
    let m = w + KK - n + 1;
    assert(4 * m == 4 * KK + x - fl - r);
    lemma_val_shift(s, n - 1, m); lemma_pt(m); lemma_tadd(r, 4 * m); let d = dv(b); let u = t(r); let v = t(4 * m);
    assert((d * u) * v == d * (u * v)) by (nonlinear_arith);
}
pub proof fn lemma_parsed_can(d: SDec) requires 0 <= d.fp.len() - d.e <= 16383 || d.fp.len() - d.e < 0 ensures dvd(U(psc(d)), pmag(d)), dvd(U(psc(d)), piv(d))
{
    let a = 4 * KK - psc(d); let b = 4 * KK + d.e - d.fp.len(); lemma_t_dvd(a, b); lemma_tpos(a); lemma_dvd_prod(t(a), t(b), dv(d.ip + d.fp));
    lemma_dvd_neg(U(psc(d)), pmag(d));
}
// ---- C08: the maximal-munch functions accept exactly this grammar
pub struct GNum { pub w1: Seq<u8>, pub sg: Seq<u8>, pub ip: Seq<u8>, pub pt: bool, pub fp: Seq<u8>, pub he: bool, pub ech: u8, pub es: Seq<u8>, pub ed: Seq<u8>, pub w2: Seq<u8> }
pub open spec fn gsign(s: Seq<u8>) -> bool { s.len() == 0 || (s.len() == 1 && (s[0] == 43 || s[0] == 45)) }
pub open spec fn gok(g: GNum) -> bool {
    &&& all_w(g.w1) && all_w(g.w2) && gsign(g.sg) && all_d(g.ip) && all_d(g.fp) && (!g.pt ==> g.fp.len() == 0) && g.ip.len() + g.fp.len() >= 1
    &&& g.he ==> ec(g.ech) && gsign(g.es) && all_d(g.ed) && g.ed.len() >= 1
}
pub open spec fn gexp(g: GNum) -> Seq<u8> { if g.he { seq![g.ech] + (g.es + (g.ed + g.w2)) } else { g.w2 } }
pub open spec fn gfrac(g: GNum) -> Seq<u8> { if g.pt { seq![46u8] + (g.fp + gexp(g)) } else { gexp(g) } }
pub open spec fn gbody(g: GNum) -> Seq<u8> { g.sg + (g.ip + gfrac(g)) }
pub open spec fn gtext(g: GNum) -> Seq<u8> { g.w1 + gbody(g) }
pub open spec fn gneg(s: Seq<u8>) -> bool { s.len() == 1 && s[0] == 45 }
pub open spec fn gval(g: GNum) -> int { if !g.he { 0 } else if gneg(g.es) { -dv(g.ed) } else { dv(g.ed) } }
pub proof fn lemma_cat_from(a: Seq<u8>, r: Seq<u8>) ensures sfrom(a + r, a.len() as int) == r, (a + r).subrange(0, a.len() as int) == a { assert(sfrom(a + r, a.len() as int) =~= r); assert((a + r).subrange(0, a.len() as int) =~= a); }
pub proof fn lemma_run_cat(a: Seq<u8>, r: Seq<u8>) requires all_d(a), r.len() > 0 ==> !digitc(r[0]) ensures run(a + r) == a.len(), sfrom(a + r, a.len() as int) == r, (a + r).subrange(0, a.len() as int) == a
{ assert forall|i: int| 0 <= i < a.len() implies digitc(#[trigger] (a + r)[i]) by { assert(digitc(a[i])); } if r.len() > 0 { assert((a + r)[a.len() as int] == r[0]); } lemma_run(a + r, a.len() as int); lemma_cat_from(a, r); }
pub proof fn lemma_wrun_cat(a: Seq<u8>, r: Seq<u8>) requires all_w(a), r.len() > 0 ==> !wsc(r[0]) ensures wrun(a + r) == a.len(), sfrom(a + r, a.len() as int) == r
{ assert forall|i: int| 0 <= i < a.len() implies wsc(#[trigger] (a + r)[i]) by { assert(wsc(a[i])); } if r.len() > 0 { assert((a + r)[a.len() as int] == r[0]); } lemma_wrun(a + r, a.len() as int); lemma_cat_from(a, r); }
pub proof fn lemma_sign_cat(s: Seq<u8>, r: Seq<u8>) requires gsign(s), r.len() > 0 && r[0] != 43 && r[0] != 45 ensures sg_n(s + r) == s.len(), sfrom(s + r, s.len() as int) == r, sg_neg(s + r) == gneg(s), (s + r).len() > 0, (s + r)[0] == (if s.len() > 0 { s[0] } else { r[0] })
{ lemma_cat_from(s, r); if s.len() > 0 { assert((s + r)[0] == s[0]); } else { assert(s + r =~= r); } }
pub proof fn lemma_gexp(g: GNum) requires gok(g)
    ensures gexp(g).len() > 0 ==> !digitc(gexp(g)[0]) && gexp(g)[0] != 46 && (ec(gexp(g)[0]) <==> g.he), g.he ==> gexp(g).len() > 0 && ec(gexp(g)[0]),
        g.he ==> sp_exp(sfrom(gexp(g), 1)) == (if dv(g.ed) >= 1073741823 { Err::<(int, Seq<u8>), ParseErrorKind>(ParseErrorKind::Overflow) } else { Ok((gval(g), g.w2)) })
{
    if g.w2.len() > 0 { assert(wsc(g.w2[0])); }
    if g.he { lemma_cat_from(seq![g.ech], g.es + (g.ed + g.w2)); assert(gexp(g)[0] == g.ech); lemma_run_cat(g.ed, g.w2); assert((g.ed + g.w2)[0] == g.ed[0]); assert(digitc(g.ed[0])); lemma_sign_cat(g.es, g.ed + g.w2); }
}
// every text of the grammar is read as the number it denotes
pub proof fn lemma_grammar_complete(g: GNum) requires gok(g)
    ensures sp_parse(gtext(g)) == (if iabs(gval(g)) >= 1073741823 { SParse::Bad(ParseErrorKind::Overflow) } else { SParse::Num(SDec { neg: gneg(g.sg), ip: g.ip, fp: g.fp, e: gval(g), rest: g.w2 }) })
{
    lemma_gexp(g); let x = gexp(g); let f = gfrac(g); let c = g.ip + f; let b = gbody(g);
    if g.he { lemma_dv_bounds(g.ed); }
    if g.pt { lemma_cat_from(seq![46u8], g.fp + x); assert(f[0] == 46); lemma_run_cat(g.fp, x); }
    lemma_run_cat(g.ip, f);
    if g.ip.len() > 0 { assert(c[0] == g.ip[0]); assert(digitc(g.ip[0])); } else { assert(c =~= f); }
    lemma_sign_cat(g.sg, c);
    assert(g.fp.len() == 0 ==> g.fp =~= Seq::<u8>::empty());
    lemma_wrun_cat(g.w1, b);
}
// whatever is accepted is a text of the grammar
pub proof fn lemma_sound_exp(y: Seq<u8>) ensures sp_exp(y) matches Ok(q) ==> exists|es: Seq<u8>, ed: Seq<u8>| gsign(es) && all_d(ed) && ed.len() >= 1 && #[trigger] (es + (ed + q.1)) == y && q.0 == (if gneg(es) { -dv(ed) } else { dv(ed) })
{
    if let Ok(q) = sp_exp(y) {
        let es = y.subrange(0, sg_n(y)); let z = sfrom(y, sg_n(y)); lemma_run_ex(z); let ed = z.subrange(0, run(z));
        assert(z =~= ed + q.1); assert(es + (ed + q.1) =~= y);
    }
}
// the part after the digits before the point
pub proof fn lemma_sound_tail(w1: Seq<u8>, sg: Seq<u8>, ip: Seq<u8>, pt: bool, fp: Seq<u8>, x: Seq<u8>, d: SDec)
    requires all_w(w1), gsign(sg), all_d(ip), all_d(fp), !pt ==> fp.len() == 0, ip.len() + fp.len() >= 1, d.neg == gneg(sg), d.ip == ip, d.fp == fp, all_w(d.rest),
        if x.len() > 0 && ec(x[0]) { sp_exp(sfrom(x, 1)) == Ok::<(int, Seq<u8>), ParseErrorKind>((d.e, d.rest)) } else { d.e == 0 && d.rest == x }
    ensures exists|g: GNum| gok(g) && g.w1 == w1 && g.sg == sg && g.ip == ip && g.pt == pt && g.fp == fp && #[trigger] gexp(g) == x && d == (SDec { neg: gneg(g.sg), ip: g.ip, fp: g.fp, e: gval(g), rest: g.w2 })
{
    let he = x.len() > 0 && ec(x[0]);
    if he {
        let y = sfrom(x, 1); lemma_sound_exp(y);
        let (es, ed) = choose|es: Seq<u8>, ed: Seq<u8>| gsign(es) && all_d(ed) && ed.len() >= 1 && #[trigger] (es + (ed + d.rest)) == y && d.e == (if gneg(es) { -dv(ed) } else { dv(ed) });
        let g = GNum { w1, sg, ip, pt, fp, he, ech: x[0], es, ed, w2: d.rest };
        assert(seq![x[0]] + y =~= x); assert(gexp(g) == x); assert(gok(g));
    } else {
        let g = GNum { w1, sg, ip, pt, fp, he, ech: 0, es: Seq::empty(), ed: Seq::empty(), w2: d.rest };
        assert(gexp(g) == x); assert(gok(g));
    }
}
pub open spec fn dp_r(c0: Seq<u8>) -> Seq<u8> { let c = sfrom(c0, sg_n(c0)); sfrom(c, run(c)) }
pub open spec fn dp_pt(c0: Seq<u8>) -> bool { dp_r(c0).len() > 0 && dp_r(c0)[0] == 46 }
pub open spec fn dp_x(c0: Seq<u8>) -> Seq<u8> { let r = dp_r(c0); if dp_pt(c0) { let g0 = sfrom(r, 1); sfrom(g0, run(g0)) } else { r } }
pub open spec fn dp_tail(x: Seq<u8>, d: SDec) -> bool { if x.len() > 0 && ec(x[0]) { sp_exp(sfrom(x, 1)) == Ok::<(int, Seq<u8>), ParseErrorKind>((d.e, d.rest)) } else { d.e == 0 && d.rest == x } }
// what sp_dec cuts its input into
pub open spec fn dp(c0: Seq<u8>, sg: Seq<u8>, pt: bool, x: Seq<u8>, d: SDec) -> bool {
    &&& gsign(sg) && all_d(d.ip) && all_d(d.fp) && (!pt ==> d.fp.len() == 0) && d.ip.len() + d.fp.len() >= 1 && d.neg == gneg(sg) && dp_tail(x, d)
    &&& c0 == sg + (d.ip + (if pt { seq![46u8] + (d.fp + x) } else { x }))
}
pub proof fn lemma_dec_parts(c0: Seq<u8>) ensures sp_dec(c0) matches Ok(d) ==> dp(c0, c0.subrange(0, sg_n(c0)), dp_pt(c0), dp_x(c0), d)
{
    if let Ok(d) = sp_dec(c0) {
        let sg = c0.subrange(0, sg_n(c0)); let c = sfrom(c0, sg_n(c0)); lemma_run_ex(c); let n = run(c); let r = sfrom(c, n); let x = dp_x(c0);
        assert(c0 =~= sg + c); assert(c =~= d.ip + r);
        if dp_pt(c0) { let g0 = sfrom(r, 1); lemma_run_ex(g0); assert(g0 =~= d.fp + x); assert(r =~= seq![46u8] + g0); }
        assert(gneg(sg) == d.neg);
    }
}
pub proof fn lemma_sound_dec(c0: Seq<u8>, w1: Seq<u8>) requires all_w(w1)
    ensures sp_dec(c0) matches Ok(d) ==> all_w(d.rest) ==> exists|g: GNum| gok(g) && g.w1 == w1 && #[trigger] gbody(g) == c0 && d == (SDec { neg: gneg(g.sg), ip: g.ip, fp: g.fp, e: gval(g), rest: g.w2 })
{
    lemma_dec_parts(c0);
    if let Ok(d) = sp_dec(c0) { if all_w(d.rest) { lemma_sound_cat(c0, w1, c0.subrange(0, sg_n(c0)), dp_pt(c0), dp_x(c0), d); } }
}
pub proof fn lemma_sound_cat(c0: Seq<u8>, w1: Seq<u8>, sg: Seq<u8>, pt: bool, x: Seq<u8>, d: SDec) requires all_w(w1), all_w(d.rest), dp(c0, sg, pt, x, d)
    ensures exists|g: GNum| gok(g) && g.w1 == w1 && #[trigger] gbody(g) == c0 && d == (SDec { neg: gneg(g.sg), ip: g.ip, fp: g.fp, e: gval(g), rest: g.w2 })
{
    lemma_sound_tail(w1, sg, d.ip, pt, d.fp, x, d);
    let g = choose|g: GNum| gok(g) && g.w1 == w1 && g.sg == sg && g.ip == d.ip && g.pt == pt && g.fp == d.fp && #[trigger] gexp(g) == x && d == (SDec { neg: gneg(g.sg), ip: g.ip, fp: g.fp, e: gval(g), rest: g.w2 });
    assert(gbody(g) == c0);
}
pub proof fn lemma_grammar_sound(b: Seq<u8>) ensures sp_parse(b) matches SParse::Num(d) ==> exists|g: GNum| gok(g) && #[trigger] gtext(g) == b && d == (SDec { neg: gneg(g.sg), ip: g.ip, fp: g.fp, e: gval(g), rest: g.w2 })
{
    if let SParse::Num(d) = sp_parse(b) {
        lemma_wrun_ex(b); let w1 = b.subrange(0, wrun(b)); let c0 = sfrom(b, wrun(b));
        assert(b =~= w1 + c0); lemma_sound_dec(c0, w1);
        let g = choose|g: GNum| gok(g) && g.w1 == w1 && #[trigger] gbody(g) == c0 && d == (SDec { neg: gneg(g.sg), ip: g.ip, fp: g.fp, e: gval(g), rest: g.w2 });
        assert(gtext(g) == b);
    }
}
pub proof fn lemma_run_ex(b: Seq<u8>) ensures is_run(b, run(b)), all_d(b.subrange(0, run(b))) decreases b.len()
{
    if b.len() == 0 { lemma_run(b, 0); } else {
        let c = b.drop_last(); lemma_run_ex(c); let n = run(c);
        assert(is_run(c, n));
        if n < c.len() { assert(!digitc(c[n])); assert(b[n] == c[n]); assert forall|i: int| 0 <= i < n implies digitc(#[trigger] b[i]) by { assert(digitc(c[i])); } lemma_run(b, n); }
        else { let m = if digitc(b.last()) { b.len() as int } else { n }; assert forall|i: int| 0 <= i < m implies digitc(#[trigger] b[i]) by { if i < n { assert(digitc(c[i])); } } lemma_run(b, m); }
    }
}
pub proof fn lemma_wrun_ex(b: Seq<u8>) ensures is_wrun(b, wrun(b)), all_w(b.subrange(0, wrun(b))) decreases b.len()
{
    if b.len() == 0 { lemma_wrun(b, 0); } else {
        let c = b.drop_last(); lemma_wrun_ex(c); let n = wrun(c);
        assert(is_wrun(c, n));
        if n < c.len() { assert(!wsc(c[n])); assert(b[n] == c[n]); assert forall|i: int| 0 <= i < n implies wsc(#[trigger] b[i]) by { assert(wsc(c[i])); } lemma_wrun(b, n); }
        else { let m = if wsc(b.last()) { b.len() as int } else { n }; assert forall|i: int| 0 <= i < m implies wsc(#[trigger] b[i]) by { if i < n { assert(wsc(c[i])); } } lemma_wrun(b, m); }
    }
}
// NaN in any case between white space; nothing but white space is `empty`
pub proof fn lemma_grammar_nan(b: Seq<u8>) ensures sp_parse(b) is NaN <==> exists|w1: Seq<u8>, c: Seq<u8>, w2: Seq<u8>| all_w(w1) && all_w(w2) && c.len() == 3 && is_nanw(c) && #[trigger] (w1 + (c + w2)) == b,
        sp_parse(b) == SParse::Bad(ParseErrorKind::Empty) <==> all_w(b)
{
    lemma_wrun_ex(b); let w = wrun(b); let c0 = sfrom(b, w);
    if sp_parse(b) is NaN { let w1 = b.subrange(0, w); let c = c0.subrange(0, 3); let w2 = sfrom(c0, 3); assert(w1 + (c + w2) =~= b); assert(is_nanw(c)); }
    if exists|w1: Seq<u8>, c: Seq<u8>, w2: Seq<u8>| all_w(w1) && all_w(w2) && c.len() == 3 && is_nanw(c) && #[trigger] (w1 + (c + w2)) == b {
        let (w1, c, w2) = choose|w1: Seq<u8>, c: Seq<u8>, w2: Seq<u8>| all_w(w1) && all_w(w2) && c.len() == 3 && is_nanw(c) && #[trigger] (w1 + (c + w2)) == b;
        assert((c + w2)[0] == c[0] && (c + w2)[1] == c[1] && (c + w2)[2] == c[2]); lemma_wrun_cat(w1, c + w2); lemma_cat_from(c, w2);
    }
    if all_w(b) { lemma_wrun(b, b.len() as int); }
    if sp_parse(b) == SParse::Bad(ParseErrorKind::Empty) {
        if c0.len() == 0 { assert(w == b.len()); } else { lemma_dec_err(c0); }
    }
}
pub proof fn lemma_dec_err(c: Seq<u8>) ensures sp_dec(c) != Err::<SDec, ParseErrorKind>(ParseErrorKind::Empty) {}
// ---- C09: what Display prints parses back to the same value and scale
pub proof fn lemma_dv_cat(a: Seq<u8>, b: Seq<u8>) ensures dv(a + b) == dv(a) * t(b.len() as int) + dv(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); lemma_t0(); } else {
        let c = b.drop_last(); assert((a + b).drop_last() =~= a + c); lemma_dv_cat(a, c); lemma_tS(b.len() as int); let u = t(b.len() - 1);
        assert((dv(a) * u) * 10 == dv(a) * (10 * u)) by (nonlinear_arith);
    }
}
pub proof fn lemma_dv_dec(n: int) requires n >= 0 ensures dv(dec(n)) == n decreases n
{ if n < 10 { assert(dec(n).drop_last() =~= Seq::empty()); assert(dec(n).last() == dch(n)); assert(dv(dec(n).drop_last()) == 0); } else { lemma_dv_dec(n / 10); assert(dec(n).drop_last() =~= dec(n / 10)); assert(dec(n).last() == dch(n % 10)); } }
pub proof fn lemma_dv_padn(n: int, k: int) requires n >= 0, k >= 0 ensures dv(padn(n, k)) == n % t(k) decreases k
{
    if k == 0 { lemma_t0(); } else {
        lemma_dv_padn(n / 10, k - 1); assert(padn(n, k).drop_last() =~= padn(n / 10, k - 1)); assert(padn(n, k).last() == dch(n % 10)); lemma_tS(k);
        vstd::arithmetic::div_mod::lemma_mod_breakdown(n, 10, t(k - 1));
    }
}
pub open spec fn gshow(neg: bool, m: int, ds: int, he: bool, ech: u8, es: Seq<u8>, ed: Seq<u8>) -> GNum {
    GNum { w1: Seq::empty(), sg: if neg { seq![45u8] } else { Seq::empty() }, ip: dec(m / p(KK)), pt: ds > 0, fp: if ds > 0 { padn(m / U(ds), ds) } else { Seq::empty() }, he, ech, es, ed, w2: Seq::empty() }
}
pub proof fn lemma_show_digits(neg: bool, m: int, ds: int, he: bool, ech: u8, es: Seq<u8>, ed: Seq<u8>) requires m >= 0, 0 <= ds <= 200000, dvd(U(ds), m), he ==> ec(ech) && gsign(es) && all_d(ed) && ed.len() >= 1
    ensures ({ let g = gshow(neg, m, ds, he, ech, es, ed); gok(g) && dv(g.ip + g.fp) == m / U(ds) && g.fp.len() == ds && gneg(g.sg) == neg && gtext(g) == ftext(neg, m, ds) + gexp(g) })
{
    let g = gshow(neg, m, ds, he, ech, es, ed);
    lemma_ppos(KK); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, p(KK)); lemma_U(ds); let q = m / U(ds); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, U(ds));
    lemma_dec_chars(m / p(KK)); lemma_padn_chars(q, ds); lemma_dv_dec(m / p(KK)); lemma_dv_padn(q, ds); lemma_dv_cat(g.ip, g.fp);
    lemma_tpos(ds); lemma_tadd(4 * KK - ds, ds); lemma_pt(KK); vstd::arithmetic::div_mod::lemma_div_denominator(m, U(ds), t(ds)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, t(ds));
    lemma_t0();
    if ds == 0 { assert(dv(g.fp) == 0); assert((m / p(KK)) * 1 == m / p(KK)); } else { let u = t(ds); let z = q / u; assert(u * z == z * u) by (nonlinear_arith); }
    assert(gtext(g) =~= ftext(neg, m, ds) + gexp(g));
}
pub proof fn lemma_parse_back(v: NView) requires v.can()
    ensures v.nan ==> sp_parse(text(v)) is NaN, !v.nan ==> (sp_parse(text(v)) matches SParse::Num(d) && piv(d) == v.iv() && psc(d) == v.dscale)
{
    if v.nan { let b = text(v); let e = Seq::<u8>::empty(); assert(e + (b + e) =~= b); assert(is_nanw(b)); lemma_grammar_nan(b); } else {
        lemma_can_facts(v); let e = Seq::<u8>::empty(); let neg = v.sign == 0x4000; let g = gshow(neg, v.mag(), v.dscale, false, 0, e, e);
        lemma_show_digits(neg, v.mag(), v.dscale, false, 0, e, e); lemma_grammar_complete(g); assert(gtext(g) =~= text(v)); lemma_dvd_i(U(v.dscale), v.mag());
    }
}
// C18: what {:e} and {:E} print parses back to the same value
pub open spec fn efs(e: int) -> Seq<u8> { seq![if e < 0 { 45u8 } else { 43u8 }] }
pub open spec fn efd(e: int) -> Seq<u8> { let a = if e < 0 { -e } else { e }; if a < 10 { seq![48u8, dch(a)] } else { dec(a) } }
pub proof fn lemma_sci_exp_bounds(m: int, e: int, sg: int, sc: int) requires sci_parts(m, e, sg, sc), 0 <= m < p(KK + 32768) ensures -4 * KK <= e <= 131072, 4 * KK + e - sc >= 0 || m == 0
{
    if m > 0 {
        lemma_pt(KK + 32768); lemma_tpos(4 * KK);
        if e >= 0 { lemma_tadd(4 * KK, e); let u = t(e); lemma_tpos(e); let P = t(4 * KK); assert(sg * u >= P * u) by (nonlinear_arith) requires sg >= P, u >= 1; if e > 131072 { lemma_tmono(4 * KK + 131072, 4 * KK + e); } }
        else {
            let u = t(-e); lemma_tpos(-e); assert(m * u >= u) by (nonlinear_arith) requires m >= 1, u >= 1; lemma_tS(4 * KK + 1);
            if -e > 4 * KK { lemma_tmono(4 * KK + 1, -e); }
            if 4 * KK + e - sc < 0 {
                lemma_U(sc); let k = -e - (4 * KK - sc); lemma_tadd(4 * KK - sc, k); lemma_tS(k); let w = t(k - 1); let y = U(sc); let q = sg / y; lemma_dvd_i(y, sg);
                assert(m * (y * (10 * w)) == (10 * (m * w)) * y) by (nonlinear_arith);
                lemma_dvd_mul(y, 10 * (m * w)); assert(q == 10 * (m * w));
            }
        }
    }
}
pub proof fn lemma_sci_value(m: int, e: int, sg: int, sc: int) requires sci_parts(m, e, sg, sc), 0 <= m < p(KK + 32768) ensures (sg / U(sc)) * t(4 * KK + e - sc) == m, sg >= 0
{
    lemma_sci_exp_bounds(m, e, sg, sc); lemma_tpos(4 * KK);
    let q = sg / U(sc); lemma_U(sc); lemma_dvd_i(U(sc), sg);
    if m == 0 { assert(q * U(sc) == 0); assert(q == 0) by (nonlinear_arith) requires q * U(sc) == 0, U(sc) >= 1; assert(0 * t(4 * KK + e - sc) == 0); }
    else if e >= 0 { lemma_tadd(4 * KK - sc, e); let x = t(4 * KK - sc); let y = t(e); assert(q * (x * y) == (q * x) * y) by (nonlinear_arith); }
    else { lemma_tadd(4 * KK + e - sc, -e); let x = t(4 * KK + e - sc); let y = t(-e); lemma_tpos(-e); assert(q * (x * y) == (q * x) * y) by (nonlinear_arith);
        assert(q * x == m) by (nonlinear_arith) requires (q * x) * y == m * y, y >= 1; }
}
pub proof fn lemma_efd(e: int) ensures all_d(efd(e)), efd(e).len() >= 1, dv(efd(e)) == iabs(e), efs(e) + efd(e) =~= expfmt(e)
{
    let ed = efd(e); let a = if e < 0 { -e } else { e };
    lemma_dec_chars(a); lemma_dv_dec(a);
    if a < 10 { assert(dec(a) =~= seq![dch(a)]); assert(sfrom(ed, 1) =~= dec(a)); lemma_dv_lead(ed); }
}
pub proof fn lemma_sci_text(neg: bool, e: int, sg: int, sc: int, ech: u8) requires sg >= 0, 0 <= sc <= 200000, dvd(U(sc), sg), ec(ech), -1000000 <= e <= 1000000
    ensures sp_parse(ftext(neg, sg, sc).push(ech) + expfmt(e)) matches SParse::Num(d) && d.neg == neg && pmag(d) == (sg / U(sc)) * t(4 * KK + e - sc)
{
    let es = efs(e); let ed = efd(e); lemma_efd(e);
    let g = gshow(neg, sg, sc, true, ech, es, ed); lemma_show_digits(neg, sg, sc, true, ech, es, ed);
    assert(es + (ed + Seq::<u8>::empty()) =~= expfmt(e));
    assert(ftext(neg, sg, sc).push(ech) + expfmt(e) =~= gtext(g)); lemma_grammar_complete(g);
    assert(gval(g) == e);
}
pub proof fn lemma_sci_back(v: NView, upper: bool, o: Seq<u8>) requires v.can(), sci_ok(v, upper, o)
    ensures v.nan ==> sp_parse(o) is NaN, !v.nan ==> (sp_parse(o) matches SParse::Num(d) && piv(d) == v.iv())
{
    if v.nan { lemma_parse_back(v); } else {
        lemma_can_facts(v); let m = v.mag(); let neg = v.sign == 0x4000; let ech = if upper { 69u8 } else { 101u8 };
        let (e, sg, sc) = choose|e: int, sg: int, sc: int| #[trigger] sci_parts(m, e, sg, sc) && o == ftext(neg, sg, sc).push(ech) + expfmt(e);
        lemma_val_bounds(v.digits, v.weight + KK); lemma_pmono(v.weight + KK + 1, KK + 32768); lemma_sci_exp_bounds(m, e, sg, sc);
        lemma_sci_value(m, e, sg, sc); lemma_sci_text(neg, e, sg, sc, ech);
    }
}
