// ---------------------------------------------------------------- the memory behind the storage types
// An allocation is a sequence of 16-bit words.  A raw pointer is its allocation; positions derived from it are offsets.
// Assumed: a raw pointer that was copied is not used after the memory is changed through another copy; alignment is 2.
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ptr { x: usize }      // *const NumericDigit, *mut NumericDigit
#[verifier::external_body] #[derive(Clone, Copy)] pub struct PtrB { x: usize }     // *const u8
#[derive(Clone, Copy)] pub struct At { pub n: usize }      // a digit pointer into an allocation: word position
#[derive(Clone, Copy)] pub struct AtB { pub n: usize }     // a byte pointer into an allocation: byte position
impl Ptr {
    pub uninterp spec fn mem(&self) -> Seq<i16>;
    pub uninterp spec fn nul(&self) -> bool;
    #[verifier::external_body] pub fn null() -> (r: Ptr) ensures r.nul() { unimplemented!() }
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == self.nul() { unimplemented!() }
    pub fn offset(&self, n: isize) -> (r: At) requires !self.nul(), 0 <= n <= self.mem().len() ensures r.n == n { At { n: n as usize } }
    // `as *const u8`
    #[verifier::external_body] pub fn bytes(self) -> (r: PtrB) ensures r.mem() == self.mem(), r.nul() == self.nul() { unimplemented!() }
}
impl PtrB {
    pub uninterp spec fn mem(&self) -> Seq<i16>;
    pub uninterp spec fn nul(&self) -> bool;
    #[verifier::external_body] pub fn null() -> (r: PtrB) ensures r.nul() { unimplemented!() }
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == self.nul() { unimplemented!() }
    pub fn add(&self, n: usize) -> (r: AtB) requires !self.nul(), n <= 2 * self.mem().len() ensures r.n == n { AtB { n } }
    // `as *mut NumericDigit`
    #[verifier::external_body] pub fn words(self) -> (r: Ptr) ensures r.mem() == self.mem(), r.nul() == self.nul() { unimplemented!() }
}
impl At { pub fn bytes(self) -> (r: AtB) requires self.n <= 0x0fff_ffff ensures r.n == 2 * self.n { AtB { n: 2 * self.n } } }
impl AtB { pub fn sub(&self, n: usize) -> (r: AtB) requires n <= self.n ensures r.n == self.n - n { AtB { n: self.n - n } } }
// std::slice::from_raw_parts over the allocation of p
#[verifier::external_body] pub fn vslice(p: &Ptr, a: At, n: usize) -> (r: &[i16]) requires !p.nul(), a.n + n <= p.mem().len() ensures r@ == p.mem().subrange(a.n as int, a.n + n) { unimplemented!() }
#[verifier::external_body] pub fn vslice_mut(p: &mut Ptr, a: At, n: usize) -> (r: &mut [i16]) requires !old(p).nul(), a.n + n <= old(p).mem().len()
    ensures r@ == old(p).mem().subrange(a.n as int, a.n + n), final(r)@.len() == r@.len(), final(p).nul() == old(p).nul(),
        final(p).mem() == old(p).mem().subrange(0, a.n as int) + final(r)@ + old(p).mem().subrange(a.n + n, old(p).mem().len() as int)
{ unimplemented!() }
#[verifier::external_body] pub fn vslice_b(p: &PtrB, a: AtB, n: usize) -> (r: &[u8]) requires !p.nul(), a.n + n <= 2 * p.mem().len() ensures r@ == wb(p.mem()).subrange(a.n as int, a.n + n), al2(r) == (a.n % 2 == 0) { unimplemented!() }
// is the address of a byte slice even
pub uninterp spec fn al2(s: &[u8]) -> bool;
// the allocator, through Vec: with_capacity(n) allocates exactly n (so does from_raw_parts free exactly n)
#[verifier::external_body] pub struct RawVec { x: u8 }
impl RawVec {
    pub uninterp spec fn mem(&self) -> Seq<i16>; pub uninterp spec fn len(&self) -> int;
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: RawVec) requires n <= 0x1fff_ffff ensures r.mem().len() == n, r.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn set_len(&mut self, n: usize) requires n <= old(self).mem().len() ensures final(self).mem() == old(self).mem(), final(self).len() == n { unimplemented!() }
    // no reallocation: the pointer taken afterwards has the capacity asked for
    #[verifier::external_body] pub fn extend_from_slice(&mut self, s: &[i16]) requires old(self).len() + s@.len() <= old(self).mem().len()
        ensures final(self).len() == old(self).len() + s@.len(), final(self).mem() == old(self).mem().subrange(0, old(self).len()) + s@ + old(self).mem().subrange(old(self).len() + s@.len(), old(self).mem().len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn as_ptr(&self) -> (r: Ptr) ensures !r.nul(), r.mem() == self.mem() { unimplemented!() }
    #[verifier::external_body] pub fn forget(self) { unimplemented!() }
    // Vec::from_raw_parts(p, 0, cap), dropped: the capacity is the one it was allocated with
    #[verifier::external_body] pub fn free(p: Ptr, len: usize, cap: usize) requires !p.nul(), p.mem().len() == cap, len <= cap { unimplemented!() }
}
impl NumericData {
    pub open spec fn buf(&self) -> Seq<i16> { self.buf.mem() }
    pub open spec fn off(&self) -> int { self.offset as int }
    pub open spec fn wf(&self) -> bool { !self.buf.nul() && self.buf.mem().len() == self.len && self.offset <= self.len <= 0x1000_0000 }
    // the memory can be given back
    pub open spec fn fr(&self) -> bool { self.buf.nul() || self.buf.mem().len() == self.len }
}
// ---- the header as NumericBinary: two words of length, then NumericChoice, whose union fields all start at its first word
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct FlexArray<T> { x: std::marker::PhantomData<T> }
impl<T> FlexArray<T> {
    pub uninterp spec fn w(&self) -> Seq<T>;
    #[verifier::external_body] pub fn as_slice(&self, len: usize) -> (r: &[T]) requires len <= self.w().len() ensures r@ == self.w().subrange(0, len as int) { unimplemented!() }
}
#[verifier::external_body] pub struct NumericChoice { x: u8 }
impl NumericChoice {
    // the memory from the first header word on
    pub uninterp spec fn w(&self) -> Seq<i16>;
    // UnionField::as_ref / as_mut
    #[verifier::external_body] pub fn u_header(&self) -> (r: &u16) requires self.w().len() >= 1 ensures *r == u16i(self.w()[0]) { unimplemented!() }
    #[verifier::external_body] pub fn u_short(&self) -> (r: &NumericShort) requires self.w().len() >= 1 ensures r.n_header == u16i(self.w()[0]), r.n_data.w() == self.w().subrange(1, self.w().len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn u_long(&self) -> (r: &NumericLong) requires self.w().len() >= 2 ensures r.n_sign_dscale == u16i(self.w()[0]), r.n_weight == self.w()[1], r.n_data.w() == self.w().subrange(2, self.w().len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn u_short_mut(&mut self) -> (r: &mut NumericShort) requires old(self).w().len() >= 1
        ensures r.n_header == u16i(old(self).w()[0]), r.n_data.w() == old(self).w().subrange(1, old(self).w().len() as int), final(self).w() == seq![i16w(final(r).n_header as int)] + final(r).n_data.w() { unimplemented!() }
    #[verifier::external_body] pub fn u_long_mut(&mut self) -> (r: &mut NumericLong) requires old(self).w().len() >= 2
        ensures r.n_sign_dscale == u16i(old(self).w()[0]), r.n_weight == old(self).w()[1], r.n_data.w() == old(self).w().subrange(2, old(self).w().len() as int),
            final(self).w() == seq![i16w(final(r).n_sign_dscale as int), final(r).n_weight] + final(r).n_data.w() { unimplemented!() }
    // a NumericChoice of its own, from its `_data`
    #[verifier::external_body] pub fn vnew(d: [u16; 2]) -> (r: NumericChoice) ensures r.w() == seq![i16w(d[0] as int), i16w(d[1] as int)] { unimplemented!() }
}
impl NumericChoice { pub open spec fn h(&self) -> int { u16i(self.w()[0]) } }
impl NumericBinary {
    pub open spec fn words(&self) -> Seq<i16> { len_words4(self.vl_len as int) + self.choice.w() }
    // the words the length word covers
    pub open spec fn ws(&self) -> Seq<i16> { self.words().subrange(0, (self.vl_len / 4) as int / 2) }
    pub open spec fn hdr0(&self) -> int { self.choice.h() }
    pub open spec fn bwf(&self) -> bool { self.choice.w().len() >= 1 && (self.vl_len / 4) as int / 2 <= self.words().len() && wfw(self.ws()) }
    pub open spec fn nv(&self) -> NView { decode(self.ws()) }
    pub proof fn lemma_parts(&self) requires self.bwf()
        ensures self.choice.h() == u16i(self.ws()[2]), 0 <= self.choice.h() < 65536, self.ws().len() == (self.vl_len / 4) as int / 2, len32(self.ws()) == self.vl_len, self.vl_len / 4 == 2 * self.ws().len(),
            self.words().len() == 2 + self.choice.w().len(), self.choice.w().len() >= hlen(self.ws()) - 2, self.ws().len() >= 4 ==> self.ws()[3] == self.choice.w()[1],
            self.ws().subrange(3, self.ws().len() as int) == self.choice.w().subrange(1, self.ws().len() - 2),
            self.ws().len() >= 4 ==> self.ws().subrange(4, self.ws().len() as int) == self.choice.w().subrange(2, self.ws().len() - 2)
    {
        let w = self.ws(); let x = self.vl_len as int;
        assert(w[0] == len_words4(x)[0] && w[1] == len_words4(x)[1] && w[2] == self.choice.w()[0]);
        lemma_i16w(x % 65536); lemma_i16w(x / 65536);
        assert(w.subrange(3, w.len() as int) =~= self.choice.w().subrange(1, w.len() - 2));
        if w.len() >= 4 { assert(w[3] == self.choice.w()[1]); assert(w.subrange(4, w.len() as int) =~= self.choice.w().subrange(2, w.len() - 2)); }
    }
    pub proof fn lemma_const(&self) requires self.vl_len == 24, self.choice.w().len() == 2, self.choice.h() == 0xC000 || self.choice.h() == 0x8000
        ensures self.bwf(), self.nv() == (if self.choice.h() == 0xC000 { nan_view() } else { zero_view() })
    {
        let w = self.ws(); assert(w.len() == 3); lemma_i16w(24); lemma_i16w(0); assert(w[0] == len_words4(24)[0] && w[1] == len_words4(24)[1] && w[2] == self.choice.w()[0]);
        assert(w.subrange(3, 3) =~= Seq::<i16>::empty());
    }
}
pub open spec fn len_words4(x: int) -> Seq<i16> { seq![i16w(x % 65536), i16w(x / 65536)] }
// &mut *(p as *mut NumericBinary) at byte position a of the allocation p
#[verifier::external_body] pub fn vbin_mut(p: &mut Ptr, a: AtB) -> (r: &mut NumericBinary) requires !old(p).nul(), a.n % 2 == 0, a.n / 2 + 3 <= old(p).mem().len()
    ensures r.words() == old(p).mem().subrange((a.n / 2) as int, old(p).mem().len() as int), final(p).nul() == old(p).nul(),
        final(p).mem() == old(p).mem().subrange(0, (a.n / 2) as int) + final(r).words()
{ unimplemented!() }
#[verifier::external_body] pub fn vbin_at(p: &PtrB, a: AtB) -> (r: &NumericBinary) requires !p.nul(), a.n % 2 == 0, a.n / 2 + 3 <= p.mem().len()
    ensures r.words() == p.mem().subrange((a.n / 2) as int, p.mem().len() as int) { unimplemented!() }
// std::slice::from_raw_parts(self as *const u8, n)
#[verifier::external_body] pub fn vbin_bytes(b: &NumericBinary, n: usize) -> (r: &[u8]) requires n <= 2 * b.words().len() ensures r@ == wb(b.words()).subrange(0, n as int), al2(r) { unimplemented!() }
// a constant expression behind a reference: static promotion
#[verifier::external_body] pub fn vstatic(x: NumericBinary) -> (r: &'static NumericBinary) ensures *r == x { unimplemented!() }
// ---- Numeric: bytes that form a numeric (the safety contract of from_bytes_unchecked, its only constructor)
#[verifier::external_body] pub struct Numeric { x: u8 }
impl Numeric {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    pub open spec fn nv(&self) -> NView { decode(bw(self.b())) }
}
#[verifier::external_body] pub proof fn axiom_numeric(n: &Numeric) ensures nwf(n.b()) {}
pub proof fn lemma_dec_bounds(n: &Numeric) requires nwf(n.b())
    ensures ({ let v = n.nv(); (v.nan ==> v == nan_view()) && (v.sign == 0 || v.sign == 0x4000 || v.sign == 0xC000) && (v.sign == 0xC000 <==> v.nan) && -32768 <= v.weight <= 32767 && 0 <= v.dscale <= 16383 && v.digits.len() <= 0x0fff_0000 }), nan_view().can()
{ let w = bw(n.b()); assert(nan_view().digits.len() == 0); }
#[verifier::external_body] pub fn vnumeric(value: &[u8]) -> (r: &Numeric) requires nwf(value@), al2(value) ensures r.b() == value@ { unimplemented!() }
#[verifier::external_body] pub fn vnumeric_bytes(n: &Numeric) -> (r: &[u8]) ensures r@ == n.b(), nwf(r@) { unimplemented!() }
// &*(bytes.as_ptr() as *const NumericBinary): the memory at the address of the bytes
#[verifier::external_body] pub fn vnumeric_binary(n: &Numeric) -> (r: &NumericBinary) ensures r.words() == bw(n.b()), nwf(n.b()) { unimplemented!() }
#[verifier::external_body] pub fn vdigits(value: &[NumericDigit]) -> (r: &NumericDigits) ensures r.ds() == value@ { unimplemented!() }
#[verifier::external_body] pub fn vdigits_slice(d: &NumericDigits) -> (r: &[NumericDigit]) ensures r@ == d.ds() { unimplemented!() }
// ---- NumericBuf: a type invariant, so every constructor and every assignment to a field is checked; a taken buffer is null
#[verifier::opaque] pub open spec fn raw_ws(buf: PtrB, offset: u32) -> Seq<i16> {
    let o = (offset / 2) as int; let m = buf.mem(); let n = dlen(m.subrange(o, m.len() as int)) / 2; m.subrange(o, o + n)
}
#[verifier::opaque] pub open spec fn raw_wf(buf: PtrB, len: u32, offset: u32) -> bool {
    let o = (offset / 2) as int; let m = buf.mem(); let n = dlen(m.subrange(o, m.len() as int)) / 2; let w = raw_ws(buf, offset);
    &&& !buf.nul() && len == 2 * m.len() && m.len() <= 0x0fff_ffff && offset % 2 == 0
    &&& o + 3 <= o + n <= m.len()
    &&& enco(decode(w)) && w == encode(decode(w)) && o + hlen(w) >= 4
}
impl NumericBuf {
    pub closed spec fn pb(&self) -> PtrB { self.buf }
    pub closed spec fn pl(&self) -> u32 { self.len }
    pub closed spec fn po(&self) -> u32 { self.offset }
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { self.buf.nul() || raw_wf(self.buf, self.len, self.offset) }
    pub closed spec fn o(&self) -> int { (self.offset / 2) as int }
    pub closed spec fn ws(&self) -> Seq<i16> { raw_ws(self.buf, self.offset) }
    pub closed spec fn nv(&self) -> NView { if self.buf.nul() { NView { nan: false, sign: 1, weight: 0, dscale: 0, digits: seq![] } } else { decode(self.ws()) } }
    pub proof fn lemma_buf(&self) requires self.inv(), !self.pb().nul()
        ensures wfw(self.ws()), nwf(byte_form(self.nv())), bw(byte_form(self.nv())) == self.ws(), byte_form(self.nv()) == wb(self.ws()), decode(bw(byte_form(self.nv()))) == self.nv()
    { reveal(raw_wf); reveal(raw_ws); lemma_dec_enc(decode(self.ws())); lemma_bw_wb(self.ws()); }
    // where its parts are
    pub proof fn lemma_pos(&self) requires self.inv(), !self.pb().nul()
        ensures ({ let w = self.ws(); let m = self.pb().mem(); let o = self.o(); let hl = hlen(w); let n = w.len() as int;
            &&& self.pl() == 2 * m.len() && m.len() <= 0x0fff_ffff && self.po() == 2 * o && 0 <= o && o + n <= m.len() && w == m.subrange(o, o + n) && dlen(m.subrange(o, m.len() as int)) == 2 * n
            &&& (hl == 3 || hl == 4) && hl <= n && 4 <= o + hl && m.subrange(o + hl, m.len() as int).subrange(0, n - hl) == self.nv().digits
            &&& self.nv().nan ==> u16i(w[2]) == 0xC000 && self.nv() == nan_view()
            &&& self.nv().sign == 0 || self.nv().sign == 0x4000 || self.nv().sign == 0xC000
            &&& self.nv().sign == 0xC000 <==> self.nv().nan })
    {
        reveal(raw_wf); reveal(raw_ws); let v = decode(self.ws()); lemma_dec_enc(v); let w = self.ws(); let m = self.buf.mem(); let o = self.o(); let hl = hlen(w); let n = w.len() as int;
        assert(m.subrange(o + hl, m.len() as int).subrange(0, n - hl) =~= w.subrange(hl, n));
        if v.nan { lemma_i16w(0xC000); assert(encode(v)[2] == hdr(v)[0]); assert(w.subrange(hl, n) =~= v.digits); }
    }
    // mem::replace(&mut self.buf, p)
    pub fn vtake(&mut self, p: PtrB) -> (r: PtrB) requires p.nul(), !old(self).pb().nul() ensures r == old(self).pb(), final(self).pb() == p, final(self).pl() == old(self).pl(), final(self).po() == old(self).po()
    { proof { use_type_invariant(&*self); } let b = self.buf; self.buf = p; b }
}
impl std::ops::Deref for NumericBuf {
    type Target = Numeric;
    // proved as NumericBuf::vderef (a trait impl cannot carry its precondition)
    #[verifier::external_body]
    fn deref(&self) -> (r: &Numeric) ensures self.nv().sign != 1 ==> r.nv() == self.nv() { unimplemented!() }
}
// ---- std::borrow::Cow<NumericDigits>, as std defines it over ToOwned and Borrow of data.rs
impl<'a> CowDigits<'a> {
    #[verifier::external_body]
    pub fn to_mut(&mut self) -> (r: &mut NumericData)
        requires old(self).ok()
        ensures r.ds() == old(self).ds(), r.ok(), *final(self) == CowDigits::<'a>::Owned(*final(r)),
            (*old(self) matches CowDigits::Owned(d) ==> *r == d), (*old(self) is Borrowed ==> r.off() == 5)
    { unimplemented!() }
    pub fn into_owned(self) -> (r: NumericData)
        requires self.ok()
        ensures r.ds() == self.ds(), r.ok(), (self matches CowDigits::Owned(d) ==> r == d), (self is Borrowed ==> r.off() == 5)
    { match self { CowDigits::Borrowed(d) => d.to_owned(), CowDigits::Owned(d) => d } }
    pub fn as_slice(&self) -> (r: &[i16]) requires self.ok() ensures r@ == self.ds() { match self { CowDigits::Borrowed(d) => d.as_slice(), CowDigits::Owned(d) => d.borrow().as_slice() } }
    pub fn vindex(&self, i: usize) -> (r: i16) requires self.ok(), i < self.ds().len() ensures r == self.ds()[i as int] { self.as_slice()[i] }
}
