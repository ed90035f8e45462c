## ---- binary.rs: the header words
@fn binary NumericShort::set_header int
@spec
    requires sign == 0 || sign == 0x4000 || sign == 0xC000, sign == 0xC000 ==> weight == 0 && dscale == 0, dscale <= 63, -64 <= weight <= 63
    ensures final(self).n_header == short_header(sign, weight as int, dscale as int), final(self).n_data == old(self).n_data
@at set self.n_header#2
    proof { lemma_short_bits(sign, weight, dscale); }

@fn binary NumericLong::set_header int
@spec
    requires sign == 0 || sign == 0x4000, dscale <= 16383
    ensures final(self).n_sign_dscale == sign + dscale, final(self).n_weight == weight, final(self).n_data == old(self).n_data
@at begin
    proof { lemma_long_bits(sign, dscale); }

@fn binary NumericChoice::n_header int
@spec
    requires self.w().len() >= 1
    ensures ret == self.h()
@sub self.n_header.as_ref() ==> self.u_header()

@fn binary NumericChoice::flag_bits int
@spec
    requires self.w().len() >= 1
    ensures ret == flag(self.h())
@at begin
    proof { lemma_hbits(self.h() as u16); }

@each F=is_nan|is_short|header_is_short
@fn binary NumericChoice::{F} int
@spec
    requires self.w().len() >= 1
    ensures ret == {F}_h(self.h())
@at begin
    proof { lemma_hbits(self.h() as u16); }
@end

@fn binary NumericChoice::header_size int
@spec
    requires self.w().len() >= 1
    ensures ret == (if self.h() >= 0x8000 { 6int } else { 8 })

@fn binary NumericChoice::sign int
@spec
    requires self.w().len() >= 1
    ensures ret == sign_h(self.h())
@at begin
    proof { lemma_hbits(self.h() as u16); }

@fn binary NumericChoice::dscale int
@spec
    requires self.w().len() >= (if self.h() >= 0x8000 { 1int } else { 2 })
    ensures ret == dscale_h(self.h())
@sub self.n_short.as_ref() ==> self.u_short()
@sub self.n_long.as_ref() ==> self.u_long()
@at begin
    proof { lemma_hbits(self.h() as u16); }

@fn binary NumericChoice::weight_short int
@spec
    requires self.w().len() >= 1, self.h() >= 0x8000
    ensures ret == weight_h(self.h())
@sub self.n_short.as_ref() ==> self.u_short()
@at begin
    proof { lemma_hbits(self.h() as u16); }

@fn binary NumericChoice::weight_long int
@spec
    requires self.w().len() >= 2, self.h() < 0x8000
    ensures ret == self.w()[1]
@sub self.n_long.as_ref() ==> self.u_long()

@fn binary NumericChoice::weight int
@spec
    requires self.w().len() >= (if self.h() >= 0x8000 { 1int } else { 2 })
    ensures ret == (if self.h() >= 0x8000 { weight_h(self.h()) } else { self.w()[1] as int })

@fn binary NumericBinary::can_be_short int
@spec
    ensures ret == (dscale <= 63 && -64 <= weight <= 63)
@at begin
    proof { assert(0x1F80u16 >> 7u16 == 63) by (bit_vector); }

@fn binary NumericBinary::encode_len
@spec
    requires len <= 0x3FFF_FFFF
    ensures ret == 4 * len
@at begin
    proof { assert(len <= 0x3FFF_FFFF ==> (len << 2) == 4 * len) by (bit_vector); }

@fn binary NumericBinary::decode_len
@spec
    ensures ret == len / 4
@at begin
    proof { assert(((len >> 2) & 0x3FFF_FFFF) == len / 4) by (bit_vector); }

@fn binary NumericBinary::set_len int
@spec
    requires len <= 0x3FFF_FFFF
    ensures final(self).vl_len == 4 * len, final(self).choice == old(self).choice

@fn binary NumericBinary::len int
@spec
    ensures ret == self.vl_len / 4

@fn binary NumericBinary::header_size int
@spec
    requires self.choice.w().len() >= 1
    ensures ret == (if self.choice.h() >= 0x8000 { 6int } else { 8 })

@fn binary NumericBinary::ndigits int
@spec
    requires self.bwf()
    ensures ret == self.ws().len() - hlen(self.ws())
@at begin
    proof { self.lemma_parts(); }

@fn binary NumericBinary::sign
@spec
    requires self.bwf()
    ensures ret == self.nv().sign
@at begin
    proof { self.lemma_parts(); }

@fn binary NumericBinary::dscale
@spec
    requires self.bwf()
    ensures !self.nv().nan ==> ret == self.nv().dscale, self.hdr0() == 0xC000 ==> ret == 0
@at begin
    proof { self.lemma_parts(); }

@fn binary NumericBinary::weight
@spec
    requires self.bwf()
    ensures !self.nv().nan ==> ret == self.nv().weight, self.hdr0() == 0xC000 ==> ret == 0
@at begin
    proof { self.lemma_parts(); }

@fn binary NumericBinary::is_nan
@spec
    requires self.bwf()
    ensures ret == self.nv().nan
@at begin
    proof { self.lemma_parts(); }

@fn binary NumericBinary::is_negative
@spec
    requires self.bwf()
    ensures ret == (self.nv().sign == 0x4000)
@at begin
    proof { self.lemma_parts(); }

@fn binary NumericBinary::is_positive
@spec
    requires self.bwf()
    ensures ret == (self.nv().sign == 0)
@at begin
    proof { self.lemma_parts(); }

@fn binary NumericBinary::long_mut int
@spec
    requires old(self).choice.w().len() >= 2
    ensures final(self).vl_len == old(self).vl_len, ret.n_data.w() == old(self).choice.w().subrange(2, old(self).choice.w().len() as int),
        final(self).choice.w() == seq![i16w(final(ret).n_sign_dscale as int), final(ret).n_weight] + final(ret).n_data.w()
@sub self.choice.n_long.as_mut() ==> self.choice.u_long_mut()

@fn binary NumericBinary::short_mut int
@spec
    requires old(self).choice.w().len() >= 1
    ensures final(self).vl_len == old(self).vl_len, ret.n_data.w() == old(self).choice.w().subrange(1, old(self).choice.w().len() as int),
        final(self).choice.w() == seq![i16w(final(ret).n_header as int)] + final(ret).n_data.w()
@sub self.choice.n_short.as_mut() ==> self.choice.u_short_mut()

@fn binary NumericBinary::nan int
@spec
    ensures ret.bwf(), ret.nv() == nan_view()
@sub NumericChoice { n_header : UnionField :: new(), n_long : UnionField :: new(), n_short : UnionField :: new(), _data : [NUMERIC_NAN, 0], } ==> NumericChoice :: vnew([NUMERIC_NAN, 0])
@at end
    proof { ret__.lemma_const(); }

@fn binary NumericBinary::zero int
@spec
    ensures ret.bwf(), ret.nv() == zero_view()
@sub NumericChoice { n_header : UnionField :: new(), n_long : UnionField :: new(), n_short : UnionField :: new(), _data : [NUMERIC_SHORT, 0], } ==> NumericChoice :: vnew([NUMERIC_SHORT, 0])
@at end
    proof { ret__.lemma_const(); }

@fn binary NumericBinary::as_bytes int
@spec
    requires self.bwf()
    ensures ret@ == wb(self.ws()), al2(ret)
@sub std :: slice :: from_raw_parts(self as * const NumericBinary as * const u8, ==> vbin_bytes(self, 
@at begin
    proof { self.lemma_parts(); lemma_wb_sub(self.words(), 0, self.ws().len() as int); }

@fn binary NumericBinary::as_var deps=var~NumericVar::borrowed
@spec
    requires self.bwf()
    ensures ret.view() == self.nv(), ret.digits.ok(), ret.ndigits == ret.digits.ds().len(), ret.digits is Borrowed
@sub self.choice.n_short.as_ref() ==> self.choice.u_short()
@sub self.choice.n_long.as_ref() ==> self.choice.u_long()
@at begin
    proof { self.lemma_parts(); lemma_hbits(self.choice.h() as u16); }
@at let digits
    proof { assert(digits@ =~= self.ws().subrange(3, self.ws().len() as int)); }
@at let digits#2
    proof { assert(digits@ =~= self.ws().subrange(4, self.ws().len() as int)); }
@at end
    proof { assert(ret__.view().digits =~= self.nv().digits); }

## ---- data.rs
@fn data NumericData::with_ndigits
@spec
    requires 0 <= ndigits <= 0x0fff_0000
    ensures ret.wf(), ret.off() == 5, ret.buf().len() == ndigits + 5
@sub ptr :: null() ==> Ptr :: null()

@fn data NumericData::into_raw_parts int
@spec
    requires self.wf()
    ensures ret.0.mem() == self.buf(), !ret.0.nul(), ret.1 == self.buf().len(), ret.2 == self.off()
@sub mem :: ManuallyDrop :: new(self) ==> self
@sub me.buf as * mut _ ==> me.buf

@fn data NumericData::from_raw_parts int
@spec
    requires !buf.nul(), len == buf.mem().len(), offset <= len <= 0x1000_0000
    ensures ret.wf(), ret.buf() == buf.mem(), ret.off() == offset

@fn data NumericData::buf_alloc int
@spec
    requires 0 <= ndigits <= 0x0fff_0000, old(self).fr()
    ensures final(self).wf(), final(self).off() == 5, final(self).buf().len() == ndigits + 5
@sub Vec :: < NumericDigit > :: with_capacity ==> RawVec :: with_capacity
@sub mem :: forget(vec) ==> vec.forget()

@fn data NumericData::buf_free int
@spec
    requires old(self).fr()
    ensures final(self).fr(), final(self).buf.nul()
@sub let _vec : Vec < NumericDigit > = Vec :: from_raw_parts(self.buf as * mut _, ==> let _vec = RawVec :: free(self.buf, 
@sub ptr :: null() ==> Ptr :: null()

@fn data NumericData::buf_copy int
@spec
    requires 0 <= ndigits, self.wf(), self.off() + ndigits <= self.buf().len()
    ensures !ret.0.nul(), ret.1 == ret.0.mem().len(), ret.1 == ndigits + 5, ret.2 == 5, ret.0.mem().subrange(5, 5 + ndigits) == self.buf().subrange(self.off(), self.off() + ndigits)
@sub Vec :: with_capacity ==> RawVec :: with_capacity
@sub mem :: forget(vec) ==> vec.forget()
@at end
    proof { assert(ptr.mem().subrange(5, 5 + ndigits) =~= self.buf().subrange(self.off(), self.off() + ndigits)); }

@fn data NumericData::len
@spec
    requires self.wf()
    ensures ret == self.buf().len()

@fn data NumericData::offset
@spec
    ensures ret == self.off()

@fn data NumericData::offset_set
@spec
    requires old(self).wf(), offset <= old(self).buf().len()
    ensures final(self).off() == offset, final(self).buf() == old(self).buf(), final(self).wf()

@fn data NumericData::offset_add
@spec
    requires old(self).wf(), old(self).off() + val <= old(self).buf().len()
    ensures final(self).off() == old(self).off() + val, final(self).buf() == old(self).buf(), final(self).wf()

@fn data NumericData::offset_sub
@spec
    requires old(self).wf(), old(self).off() >= val
    ensures final(self).off() == old(self).off() - val, final(self).buf() == old(self).buf(), final(self).wf()

@fn data NumericData::digits
@spec
    requires self.wf(), 0 <= ndigits, self.off() + ndigits <= self.buf().len()
    ensures ret@ == self.buf().subrange(self.off(), self.off() + ndigits)
@sub std :: slice :: from_raw_parts( ==> vslice(&self.buf, 

@fn data NumericData::digits_mut
@spec
    requires old(self).wf(), 0 <= ndigits, old(self).off() + ndigits <= old(self).buf().len()
    ensures ret@ == old(self).buf().subrange(old(self).off(), old(self).off() + ndigits), final(ret)@.len() == ret@.len(), final(self).off() == old(self).off(), final(self).wf(),
        final(self).buf() == old(self).buf().subrange(0, old(self).off()) + final(ret)@ + old(self).buf().subrange(old(self).off() + ndigits, old(self).buf().len() as int)
@sub std :: slice :: from_raw_parts_mut(ptr as * mut _, ==> vslice_mut(&mut self.buf, ptr, 

@fn data NumericData::as_mut_slice
@spec
    requires old(self).wf(), old(self).off() > 4
    ensures ret@ == old(self).buf(), final(ret)@.len() == ret@.len(), final(self).off() == old(self).off(), final(self).buf() == final(ret)@, final(self).wf()
@sub std :: slice :: from_raw_parts_mut(self.buf as * mut _, ==> vslice_mut(&mut self.buf, At { n: 0 }, 
@at begin
    let ghost m0 = self.buf.mem();
    proof { assert(m0.subrange(0, m0.len() as int) =~= m0); assert forall|s: Seq<i16>| s.len() == m0.len() implies #[trigger] (m0.subrange(0, 0) + s + m0.subrange(m0.len() as int, m0.len() as int)) == s by { assert((m0.subrange(0, 0) + s + m0.subrange(m0.len() as int, m0.len() as int)) =~= s); } }

@fn data NumericData::reserve_rounding_digit
@spec
    requires 0 < ndigits <= 0x0fff_0000, old(self).ok(), old(self).off() + ndigits <= old(self).buf().len()
    ensures final(self).ok(), final(self).off() > 4,
        old(self).off() > 4 ==> *final(self) == *old(self),
        old(self).off() <= 4 ==> final(self).off() == 5 && final(self).ds() == old(self).buf().subrange(old(self).off(), old(self).off() + ndigits)
@at fi 0
    proof { assert(self.ds() =~= old(self).buf().subrange(old(self).off(), old(self).off() + ndigits)); }

@fn data NumericData::set_header
@spec
    requires old(self).wf(), old(self).off() >= 4, 0 <= ndigits, old(self).off() + ndigits <= old(self).buf().len() <= 0x0fff_ffff,
        sign == 0 || sign == 0x4000 || sign == 0xC000, sign == 0xC000 ==> weight == 0 && dscale == 0, dscale <= 16383
    ensures final(self).wf(), final(self).off() == old(self).off(), ({
        let h = hdr_of(sign, weight as int, dscale as int); let hl = 2 + h.len(); let m = old(self).buf();
        &&& ret == 2 * (old(self).off() - hl)
        &&& final(self).buf() == m.subrange(0, old(self).off() - hl) + len_words(2 * (hl + ndigits)) + h + m.subrange(old(self).off(), m.len() as int) })
@sub self.buf.offset(self.offset as isize) as * mut u8 ==> self.buf.offset(self.offset as isize).bytes()
@sub &mut *(p as * mut NumericBinary) ==> vbin_mut(&mut self.buf, p)
@at begin
    let ghost m = self.buf.mem(); let ghost off = self.offset as int; let ghost sh = sign == 0xC000 || (dscale <= 63 && -64 <= weight <= 63);
    let ghost h = hdr_of(sign, weight as int, dscale as int); let ghost hl = 2 + h.len();
    let ghost tgt = m.subrange(0, off - hl) + len_words(2 * (hl + ndigits)) + h + m.subrange(off, m.len() as int);
@at let bin
    let ghost cw = bin.choice.w();
    proof { assert(bin.words().len() == 2 + cw.len()); assert forall|i: int| 0 <= i < cw.len() implies cw[i] == m[off - 1 + i] by { assert(cw[i] == bin.words()[2 + i]); }
        assert(cw.subrange(1, cw.len() as int) =~= m.subrange(off, m.len() as int)); }
@at let bin#2
    let ghost cw = bin.choice.w();
    proof { assert(bin.words().len() == 2 + cw.len()); assert forall|i: int| 0 <= i < cw.len() implies cw[i] == m[off - 2 + i] by { assert(cw[i] == bin.words()[2 + i]); }
        assert(cw.subrange(2, cw.len() as int) =~= m.subrange(off, m.len() as int)); }
@at let header_offset
    proof { assert(self.buf.mem() =~= tgt); }

@fn data NumericData::drop trait=Drop int as=vdrop
@spec
    requires old(self).fr()
    ensures final(self).buf.nul()

@fn data NumericDigits::from_slice_unchecked
@spec
    ensures ret.ds() == value@
@sub &*(value as * const [NumericDigit] as * const NumericDigits) ==> vdigits(value)

@fn data NumericDigits::as_slice
@spec
    ensures ret@ == self.ds()
@sub &self.data ==> vdigits_slice(self)

@fn data NumericDigits::deref trait=Deref as=vderef int
@spec
    ensures ret@ == self.ds()

@fn data NumericData::borrow trait=Borrow<NumericDigits> int
@spec
    requires self.ok()
    ensures ret.ds() == self.ds()

@fn data NumericDigits::to_owned trait=ToOwned int
@spec
    requires self.ds().len() <= 0x0fff_0000
    ensures ret.ok(), ret.ds() == self.ds(), ret.off() == 5
@sub self.data.len() ==> vdigits_slice(self).len()

## ---- num.rs
@fn num NumericBuf::from_raw_parts store int
@spec
    requires raw_wf(buf, len, offset)
    ensures ret.pb() == buf, ret.pl() == len, ret.po() == offset
@at begin
    proof { reveal(raw_wf); reveal(raw_ws); }

@fn num NumericBuf::as_bytes store
@spec
    requires self.nv().sign != 1
    ensures ret@ == byte_form(self.nv()), al2(ret)
@sub &*(ptr as * const NumericBinary) ==> vbin_at(&self.buf, ptr)
@sub std :: slice :: from_raw_parts( ==> vslice_b(&self.buf, 
@at begin
    proof { use_type_invariant(self); self.lemma_buf(); self.lemma_pos(); }
@at let bin
    proof { let w = bin.words(); let x = bin.vl_len as int; assert(w[0] == len_words4(x)[0] && w[1] == len_words4(x)[1]); lemma_i16w(x % 65536); lemma_i16w(x / 65536); assert(len32(w) == x);
        lemma_wb_sub(self.buf.mem(), self.o(), self.o() + self.ws().len()); }

@fn num NumericBuf::as_numeric store
@spec
    requires self.nv().sign != 1
    ensures ret.nv() == self.nv(), ret.b() == byte_form(self.nv())
@at begin
    proof { use_type_invariant(self); self.lemma_buf(); }

@fn num NumericBuf::deref trait=Deref as=vderef store
@spec
    requires self.nv().sign != 1
    ensures ret.nv() == self.nv(), ret.b() == byte_form(self.nv())

@fn num NumericBuf::as_ref trait=AsRef<Numeric> as=vas_ref store
@spec
    requires self.nv().sign != 1
    ensures ret.nv() == self.nv(), ret.b() == byte_form(self.nv())

@fn num NumericBuf::borrow trait=Borrow<Numeric> as=vborrow store
@spec
    requires self.nv().sign != 1
    ensures ret.nv() == self.nv(), ret.b() == byte_form(self.nv())

@fn num NumericBuf::as_var_owned store
@spec
    requires old(self).nv().sign != 1
    ensures ret.view() == old(self).nv(), ret.digits.ok(), 0 <= ret.ndigits <= ret.digits.ds().len(), ret.digits is Owned, final(self).nv().sign == 1
@sub std :: mem :: replace(&mut self.buf, std :: ptr :: null()) ==> self.vtake(PtrB :: null())
@at begin
    proof { use_type_invariant(&*self); }

@fn num NumericBuf::into_var store
@spec
    requires self.nv().sign != 1
    ensures ret.view() == self.nv(), ret.digits.ok(), 0 <= ret.ndigits <= ret.digits.ds().len(), ret.digits is Owned
@sub std :: mem :: ManuallyDrop :: new(self) ==> self
@sub me.buf as * mut _ ==> me.buf.words()
@sub me.as_binary() ==> me.vderef().as_binary()
@at begin
    proof { use_type_invariant(&self); self.lemma_buf(); self.lemma_pos(); }
@at let bin
    proof { bin.lemma_parts(); assert(bin.ws() == me.ws()); }
@at let data
    proof { assert(data.ds() == me.pb().mem().subrange(me.o() + hlen(bin.ws()), me.pb().mem().len() as int)); }

@fn num NumericBuf::drop trait=Drop as=vdrop store int
@spec
    ensures final(self).nv().sign == 1
@sub let _vec = Vec :: < NumericDigit > :: from_raw_parts(self.buf as * mut NumericDigit, ==> let _vec = RawVec :: free(self.buf.words(), 
@sub std :: ptr :: null() ==> PtrB :: null()
@at begin
    proof { use_type_invariant(&*self); if !self.buf.nul() { self.lemma_pos(); } }

@fn num Numeric::from_bytes_unchecked store
@spec
    requires nwf(value@), al2(value)
    ensures ret.b() == value@, ret.nv() == decode(bw(value@))
@sub &*(value as * const [u8] as * const Numeric) ==> vnumeric(value)

@fn num Numeric::nan store
@spec
    ensures ret.nv() == nan_view()
@sub const NAN_BINARY ==> let NAN_BINARY
@sub NAN_BINARY.as_bytes() ==> vstatic(NAN_BINARY).as_bytes()
@at begin
    proof { assert forall|b: NumericBinary| b.bwf() implies bw(#[trigger] wb(b.ws())) == b.ws() by { lemma_bw_wb(b.ws()); } }

@fn num Numeric::zero store
@spec
    ensures ret.nv() == zero_view(), ret.nv().is(0, 0)
@sub const ZERO_BINARY ==> let ZERO_BINARY
@sub ZERO_BINARY.as_bytes() ==> vstatic(ZERO_BINARY).as_bytes()
@at begin
    proof { lemma_zero_view(); assert forall|b: NumericBinary| b.bwf() implies bw(#[trigger] wb(b.ws())) == b.ws() by { lemma_bw_wb(b.ws()); } }

@fn num Numeric::as_bytes store
@spec
    ensures ret@ == self.b(), self.nv() == decode(bw(self.b()))
@sub &self.bytes ==> vnumeric_bytes(self)

@fn num Numeric::as_binary store
@spec
    ensures ret.bwf(), ret.nv() == self.nv(), ret.ws() == bw(self.b())
@sub &*(self.bytes.as_ptr() as * const NumericBinary) ==> vnumeric_binary(self)
@sub self.bytes.len() ==> vnumeric_bytes(self).len()
@at let bin
    proof { let w = bin.words(); let x = bin.vl_len as int; assert(w[0] == len_words4(x)[0] && w[1] == len_words4(x)[1]); lemma_i16w(x % 65536); lemma_i16w(x / 65536); assert(len32(w) == x);
        assert(w.subrange(0, w.len() as int) =~= w); assert(bin.ws() == w); }
