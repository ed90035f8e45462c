// ---------------------------------------------------------------- bytes accepted from outside
// C24: which byte strings are the entire stored form of a numeric: a canonical one, or NaN (whose long form older servers wrote)
#[verifier::opaque] pub open spec fn valid(b: Seq<u8>) -> bool { nwf(b) && { let v = decode(bw(b)); if v.nan { b.len() == 6 || b.len() == 8 } else { v.can() } } }
pub proof fn lemma_dvd_cancel(d: int, k: int, a: int) requires d > 0, k > 0, d * k != 0, dvd(d * k, a * k) ensures dvd(d, a)
{
    assert(d * k > 0) by (nonlinear_arith) requires d > 0, k > 0;
    lemma_dvd_i(d * k, a * k); let q = (a * k) / (d * k);
    assert(a == q * d) by (nonlinear_arith) requires a * k == q * (d * k), k > 0;
    lemma_dvd_mul(d, q);
}
pub proof fn lemma_mods(y: int, l: int) ensures (10000 * y + l) % 10 == l % 10, (10000 * y + l) % 100 == l % 100, (10000 * y + l) % 1000 == l % 1000 {
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(1000 * y, l, 10); vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(100 * y, l, 100); vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(10 * y, l, 1000);
}
// digits beyond the display scale: none, or only zeroes of the last stored digit
pub proof fn lemma_hidden(s: Seq<i16>, w: int, ds: int) requires digs(s), s.len() > 0, -32768 <= w <= 32767, 0 <= ds <= 16383
    ensures ({ let e = (s.len() - 1 - w) * 4 - ds; let l = s.last() as int;
        &&& e >= 4 <==> s.len() > w + 1 + (ds + 3) / 4
        &&& e <= 0 ==> dvd(U(ds), V(s, w))
        &&& e == 1 ==> (dvd(U(ds), V(s, w)) <==> l % 10 == 0)
        &&& e == 2 ==> (dvd(U(ds), V(s, w)) <==> l % 100 == 0)
        &&& e == 3 ==> (dvd(U(ds), V(s, w)) <==> l % 1000 == 0) })
{
    let n = s.len() as int; let e = (n - 1 - w) * 4 - ds;
    if e <= 3 {
        let k = KK - (n - 1 - w); let x = val(s, n - 1); let u = U(ds);
        lemma_val_shift(s, n - 1, k); assert(V(s, w) == x * p(k)); lemma_pt(k); lemma_ppos(k);
        if e <= 0 { lemma_t_dvd(4 * KK - ds, 4 * k); lemma_U(ds); lemma_dvd_prod(u, p(k), x); }
        else {
            lemma_tadd(4 * k, e); lemma_t0(); let d = t(e); lemma_tpos(e); let q = p(k);
            assert(u == q * d); assert(q * d == d * q) by (nonlinear_arith); lemma_U(ds);
            lemma_val_step(s, n - 1); let y = val(s, n - 2); let l = s.last() as int; assert(x == 10000 * y + l);
            if dvd(u, x * q) { lemma_dvd_cancel(d, q, x); }
            if dvd(d, x) { lemma_dvd_scale(d, q, x); }
            assert(dvd(u, V(s, w)) <==> x % d == 0);
            lemma_mods(y, l);
        }
    }
}
pub open spec fn b2i(b: Seq<u8>, i: int) -> int { b[i] + 256 * b[i + 1] }
#[verifier::external_body] pub fn vne_u16(b: [u8; 2]) -> (r: u16) ensures r == b2i(b@, 0) { unimplemented!() }
#[verifier::external_body] pub fn vne_i16(b: [u8; 2]) -> (r: i16) ensures r == i16w(b2i(b@, 0)) { unimplemented!() }
#[verifier::external_body] pub fn vne_u32(b: [u8; 4]) -> (r: u32) ensures r == b2i(b@, 0) + 65536 * b2i(b@, 2) { unimplemented!() }
// the words of a byte string
pub proof fn lemma_words(b: Seq<u8>) ensures forall|i: int| 0 <= i < b.len() / 2 ==> u16i(#[trigger] bw(b)[i]) == b2i(b, 2 * i) && bw(b)[i] == i16w(b2i(b, 2 * i)), bw(b).len() == b.len() / 2,
    b.len() >= 6 ==> len32(bw(b)) == b2i(b, 0) + 65536 * b2i(b, 2) && u16i(bw(b)[2]) == b2i(b, 4)
{
    assert forall|i: int| 0 <= i < b.len() / 2 implies u16i(#[trigger] bw(b)[i]) == b2i(b, 2 * i) && bw(b)[i] == i16w(b2i(b, 2 * i)) by { lemma_i16w(b2i(b, 2 * i)); }
    if b.len() >= 6 { let w = bw(b); assert(u16i(w[0]) == b2i(b, 0) && u16i(w[1]) == b2i(b, 2) && u16i(w[2]) == b2i(b, 4)); }
}
// the same, in terms of the parts a reader looks at
#[verifier::opaque] pub open spec fn tail_ok(D: NView) -> bool {
    let n = D.digits.len() as int; let e = (n - 1 - D.weight) * 4 - D.dscale; let l = D.digits.last() as int;
    if n == 0 { D.weight == 0 && D.sign == 0 } else { D.weight >= -32767 && digs(D.digits) && D.digits[0] != 0 && l != 0 && (e <= 0 || e == 1 && l % 10 == 0 || e == 2 && l % 100 == 0 || e == 3 && l % 1000 == 0) }
}
pub proof fn lemma_valid(b: Seq<u8>)
    ensures b.len() < 6 ==> !valid(b), ({ let W = bw(b); let D = decode(W); b.len() >= 6 ==> {
        &&& W[2] == i16w(b2i(b, 4)) && u16i(W[2]) == b2i(b, 4) && len32(W) == b2i(b, 0) + 65536 * b2i(b, 2)
        &&& D.nan <==> b2i(b, 4) >= 0xC000
        &&& D.nan ==> (valid(b) <==> dlen(W) == b.len() && (b.len() == 6 || b.len() == 8))
        &&& !D.nan ==> (valid(b) <==> dlen(W) == b.len() && b.len() % 2 == 0 && b.len() >= 2 * hlen(W) && tail_ok(D)) } })
{
    reveal(valid); reveal(tail_ok); lemma_words(b); let W = bw(b); let D = decode(W); let H = hlen(W); assert(W.len() == b.len() / 2);
    if b.len() >= 6 && !D.nan && dlen(W) == b.len() && b.len() % 2 == 0 && b.len() >= 2 * H {
        assert(D.digits =~= W.subrange(H, W.len() as int)); assert(0 <= D.dscale <= 16383 && -32768 <= D.weight <= 32767); let n = D.digits.len() as int;
        if n == 0 { lemma_val_empty(D.digits, D.weight + KK); lemma_U(D.dscale); assert(0int % U(D.dscale) == 0); }
        else { if digs(D.digits) { lemma_hidden(D.digits, D.weight, D.dscale); } }
        assert(D.sign == 0 || D.sign == 0x4000);
        if tail_ok(D) { assert(n <= 40000); assert(D.can()); assert(wfw(W)); }
        if D.can() { assert(tail_ok(D)); }
    }
}
pub proof fn lemma_tail(b: Seq<u8>, data: Seq<u8>) requires b.len() >= 6, !decode(bw(b)).nan, b.len() >= 2 * hlen(bw(b)), data == b.subrange(2 * hlen(bw(b)), b.len() as int)
    ensures ({ let W = bw(b); let D = decode(W); let h = b2i(b, 4);
        &&& D.digits.len() == data.len() / 2 && (hlen(W) == 3 || hlen(W) == 4) && (hlen(W) == 3 <==> h >= 0x8000)
        &&& forall|i: int| 0 <= i < data.len() / 2 ==> #[trigger] D.digits[i] == i16w(b2i(data, 2 * i))
        &&& D.weight == (if h >= 0x8000 { weight_h(h) } else { i16w(b2i(b, 6)) as int }) && -32768 <= D.weight <= 32767 && D.dscale == dscale_h(h) && 0 <= D.dscale <= 16383 && D.sign == sign_h(h) })
{
    lemma_words(b); let W = bw(b); let D = decode(W); let H = hlen(W);
    assert(D.digits == W.subrange(H, W.len() as int));
    assert forall|i: int| 0 <= i < data.len() / 2 implies #[trigger] D.digits[i] == i16w(b2i(data, 2 * i)) by { assert(D.digits[i] == W[H + i]); }
    if H == 4 { assert(W[3] == i16w(b2i(b, 6))); }
}
// ---- serde: a data format.  Assumed: it hands the visitor what was serialized, or fails; its own code is not verified
pub open spec fn okv<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub trait DeError: Sized { fn custom<T>(msg: T) -> Self; }
pub trait VSerializer: Sized {
    type Ok; type Error;
    spec fn hr(&self) -> bool;
    // what was written
    spec fn wrote_str(&self, b: Seq<u8>, r: Result<Self::Ok, Self::Error>) -> bool;
    spec fn wrote_bytes(&self, b: Seq<u8>, r: Result<Self::Ok, Self::Error>) -> bool;
    fn is_human_readable(&self) -> (r: bool) ensures r == self.hr();
    fn serialize_bytes(self, b: &[u8]) -> (r: Result<Self::Ok, Self::Error>) ensures self.wrote_bytes(b@, r);
}
// what a visitor makes of a string or of bytes; None: an error
pub trait VVisitor<'de>: Sized {
    type Value;
    spec fn str_ok(b: Seq<u8>, r: Option<Self::Value>) -> bool;
    spec fn bytes_ok(b: &'de [u8], borrowed: bool, r: Option<Self::Value>) -> bool;
}
pub trait VDeserializer<'de>: Sized {
    type Error: DeError;
    spec fn hr(&self) -> bool;
    // the string or bytes at hand, if it is that
    spec fn str_in(&self) -> Option<Seq<u8>>;
    spec fn bytes_in(&self) -> Option<&'de [u8]>;
    // the bytes outlive the deserializer
    spec fn borrowed(&self) -> bool;
    fn is_human_readable(&self) -> (r: bool) ensures r == self.hr();
    fn deserialize_str<W: VVisitor<'de>>(self, v: W) -> (r: Result<W::Value, Self::Error>) ensures match self.str_in() { Some(b) => W::str_ok(b, okv(r)), None => r is Err };
    fn deserialize_bytes<W: VVisitor<'de>>(self, v: W) -> (r: Result<W::Value, Self::Error>) ensures match self.bytes_in() { Some(b) => W::bytes_ok(b, self.borrowed(), okv(r)), None => r is Err };
}
impl String {
    #[verifier::external_body] pub fn serialize<S: VSerializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) ensures s.wrote_str(self.b(), r) { unimplemented!() }
}
// core's ToString over the Display impls (contracts/90_text.vc), whose writer never fails
impl NumericBuf { #[verifier::external_body] pub fn to_string(&self) -> (r: String) requires self.can() ensures r.b() == text(self.nv()) { unimplemented!() } }
impl Numeric { #[verifier::external_body] pub fn to_string(&self) -> (r: String) requires self.can() ensures r.b() == text(self.nv()) { unimplemented!() } }
// C24: from a string, what parsing it gives; from bytes, the numeric they are, or an error
pub open spec fn de_str(b: Seq<u8>, r: Option<NumericBuf>) -> bool { b.len() <= 0x3ff0_0000 ==> exists|q: Result<NumericBuf, NumericParseError>| #[trigger] parsed(q, b) && okv(q) == r }
pub open spec fn de_bytes(b: Seq<u8>, r: Option<NumericBuf>) -> bool { (r is Some <==> valid(b)) && (r matches Some(x) ==> x.nv() == decode(bw(b)) && x.can()) }
pub open spec fn de_slice(b: &[u8], borrowed: bool, r: Option<&Numeric>) -> bool { (r is Some <==> borrowed && valid(b@) && al2(b)) && (r matches Some(x) ==> x.b() == b@ && x.nv() == decode(bw(b@)) && x.can()) }
pub struct NumericBufVisitor; pub struct NumericVisitor;
impl<'de> VVisitor<'de> for NumericBufVisitor {
    type Value = NumericBuf;
    open spec fn str_ok(b: Seq<u8>, r: Option<NumericBuf>) -> bool { de_str(b, r) }
    open spec fn bytes_ok(b: &'de [u8], borrowed: bool, r: Option<NumericBuf>) -> bool { de_bytes(b@, r) }
}
// no visit_str, no visit_bytes: serde's defaults fail
impl<'de> VVisitor<'de> for NumericVisitor {
    type Value = &'de Numeric;
    open spec fn str_ok(b: Seq<u8>, r: Option<&'de Numeric>) -> bool { r is None }
    open spec fn bytes_ok(b: &'de [u8], borrowed: bool, r: Option<&'de Numeric>) -> bool { de_slice(b, borrowed, r) }
}
// a Vec<NumericDigit> whose memory is filled with bytes
#[verifier::external_body] pub struct WBuf { x: u8 }
pub struct WPtr;
impl WBuf {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    // as_mut_ptr() as *mut u8; ptr.copy_from_nonoverlapping(src, n); slice::from_raw_parts(ptr, n)
    pub fn vptr(&mut self) -> (r: WPtr) ensures final(self).b() == old(self).b() { WPtr }
    #[verifier::external_body] pub fn vfill(&mut self, p: &WPtr, s: &[u8], n: usize) requires n <= s@.len(), n <= old(self).b().len() ensures final(self).b() == s@.subrange(0, n as int) + old(self).b().subrange(n as int, old(self).b().len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn vbytes(&self, p: &WPtr, n: usize) -> (r: &[u8]) requires n <= self.b().len() ensures r@ == self.b().subrange(0, n as int), al2(r) { unimplemented!() }
}
#[verifier::external_body] pub fn vwbuf(n: usize) -> (r: WBuf) ensures r.b().len() == 2 * n { unimplemented!() }
#[verifier::external_body] pub fn val2(b: &[u8]) -> (r: bool) ensures r == al2(b) { unimplemented!() }
// C24: what was written reads back as the same value and scale
pub proof fn lemma_serde_back(v: NView) requires v.can()
    ensures valid(byte_form(v)), decode(bw(byte_form(v))) == v,
        forall|r: Option<NumericBuf>| de_bytes(byte_form(v), r) ==> r is Some && r.unwrap().nv() == v,
        forall|r: Option<NumericBuf>| text(v).len() <= 0x3ff0_0000 && de_str(text(v), r) ==> r is Some && (if v.nan { r.unwrap().nv() == v } else { r.unwrap().nv().is(v.iv(), v.dscale) })
{
    reveal(valid); lemma_bytes_back(v); if v.nan { lemma_bytes_nan(); assert(v.digits =~= Seq::<i16>::empty()); assert(v == nan_view()); }
    lemma_parse_back(v);
    assert forall|r: Option<NumericBuf>| text(v).len() <= 0x3ff0_0000 && de_str(text(v), r) implies r is Some && (if v.nan { r.unwrap().nv() == v } else { r.unwrap().nv().is(v.iv(), v.dscale) }) by {
        let q = choose|q: Result<NumericBuf, NumericParseError>| #[trigger] parsed(q, text(v)) && okv(q) == r;
        if !v.nan { lemma_can_facts(v); }
    }
}
