@fn binary NumericBinary::is_valid rlimit=40
@spec
    ensures ret == valid(bytes@)
@at begin
    let ghost W = bw(bytes@); let ghost D = decode(W);
    proof { lemma_valid(bytes@); }
@at let header
    proof { assert(len32(W) == len); assert(u16i(W[2]) == header); assert(header & 0xC000 == (if header >= 0xC000 { 0xC000u16 } else if header >= 0x8000 { 0x8000u16 } else if header >= 0x4000 { 0x4000u16 } else { 0u16 })) by { lemma_hbits(header); } }
@at let weight#2
    proof { assert(weight == weight_h(header as int)) by { lemma_hbits(header); } assert((header & 0x1F80) >> 7u16 == dscale_h(header as int) && (header & 0x2000 == 0 <==> sign_h(header as int) == 0)) by { lemma_hbits(header); } }
@at else 3
    proof { assert(header & 0x3FFF == dscale_h(header as int)) by { lemma_hbits(header); } }
@at let weight_dscale_sign_data
    proof {
        assert(data@ =~= bytes@.subrange(2 * hlen(W), bytes@.len() as int)); lemma_tail(bytes@, data@);
        assert(weight == D.weight && dscale == D.dscale && (sign == 0 <==> D.sign == 0)); assert(bytes@.len() <= 0x3fff_ffff);
    }
@at closure
    -> (r: i32) requires 2 * i + 1 < data@.len() ensures r == i16w(b2i(data@, 2 * i)) as i32
@at inv 0
    invariant_except_break it__0 <= hi__0, hi__0 == ndigits, forall|j: int| 0 <= j < it__0 ==> 0 <= #[trigger] D.digits[j] < 10000, !any__
    invariant hi__0 == ndigits, data@.len() == 2 * ndigits, D.digits.len() == ndigits, forall|i: int| 0 <= i < ndigits ==> #[trigger] D.digits[i] == i16w(b2i(data@, 2 * i)), forall|i: usize| 2 * i + 1 < data@.len() ==> #[trigger] digit.requires((i,)), forall|i: usize, r: i32| #[trigger] digit.ensures((i,), r) ==> r == i16w(b2i(data@, 2 * i)) as i32
    ensures any__ <==> !digs(D.digits)
    decreases hi__0 - it__0
@at then 9
    proof { assert(!(0 <= D.digits[i as int] < 10000)); }
@at then 7
    proof { reveal(tail_ok); }
@at then 8
    proof { reveal(tail_ok); }
@at let digit
    proof { let x = ndigits as int - weight as int - 1; assert(DEC_DIGITS == 4); assert(-0x1_0000 <= x <= 0x3000_0000) by { assert(ndigits <= 0x2000_0000); } assert(x * (DEC_DIGITS as i64 as int) == 4 * x) by (nonlinear_arith) requires DEC_DIGITS == 4; assert(0 <= dscale as i64 <= 65535); }
@at let hidden
    proof { reveal(tail_ok); }

@fn num Numeric::to_owned trait=ToOwned store
@spec
    ensures ret.nv() == self.nv(), self.can() ==> ret.can()
@at begin
    proof { axiom_numeric(self); lemma_dec_bounds(self); }

@fn num NumericBufVisitor::visit_bytes trait=serde::de::Visitor<'de> inst=inNumericBufdeserialize value=NumericBuf store deps=binary~NumericBinary::is_valid
@spec
    ensures de_bytes(v@, okv(ret))
@sub : Vec < NumericDigit > = vec ! [0;(v.len() + 1) / 2] ==> = vwbuf((v.len() + 1) / 2)
@sub buf.as_mut_ptr() as * mut u8 ==> buf.vptr()
@sub ptr.copy_from_nonoverlapping(v.as_ptr(), v.len()) ==> buf.vfill(&ptr, v, v.len())
@sub std :: slice :: from_raw_parts(ptr, v.len()) ==> buf.vbytes(&ptr, v.len())
@at begin
    proof { reveal(valid); }
@at call Numeric::from_bytes_unchecked
    proof { assert(buf.b().subrange(0, v@.len() as int) =~= v@); }
@at let n
    proof { assert(decode(bw(v@)).nan ==> decode(bw(v@)) == nan_view()); }

@fn num NumericBufVisitor::visit_str trait=serde::de::Visitor<'de> inst=inNumericBufdeserialize value=NumericBuf deps=parse~NumericBuf::from_str~FromStr
@spec
    requires v.spec_bytes().len() <= 0x3ff0_0000
    ensures de_str(v.spec_bytes(), okv(ret))
@sub v.parse() ==> NumericBuf :: from_str(v)

@fn num NumericVisitor::visit_borrowed_bytes trait=serde::de::Visitor<'de> value=&'de_Numeric store deps=binary~NumericBinary::is_valid
@spec
    ensures de_slice(v, true, okv(ret))
@sub v.as_ptr() as usize % std :: mem :: align_of :: < NumericBinary >() != 0 ==> !val2(v)
@at begin
    proof { reveal(valid); }

@fn num NumericBuf::serialize trait=serde::Serialize
@spec
    requires self.can()
    ensures if serializer.hr() { serializer.wrote_str(text(self.nv()), ret) } else { serializer.wrote_bytes(byte_form(self.nv()), ret) }

@fn num Numeric::serialize trait=serde::Serialize
@spec
    requires self.can()
    ensures if serializer.hr() { serializer.wrote_str(text(self.nv()), ret) } else { serializer.wrote_bytes(self.b(), ret) }

@fn num NumericBuf::deserialize trait=serde::Deserialize<'de>
@spec
    ensures if deserializer.hr() { match deserializer.str_in() { Some(b) => de_str(b, okv(ret)), None => ret is Err } } else { match deserializer.bytes_in() { Some(b) => de_bytes(b@, okv(ret)), None => ret is Err } }

@fn num &'deNumeric::deserialize trait=serde::Deserialize<'de> free as=deserialize_ref
@spec
    ensures if deserializer.hr() { ret is Err } else { match deserializer.bytes_in() { Some(b) => de_slice(b, deserializer.borrowed(), okv(ret)), None => ret is Err } }
