@fn var NumericVar::into_numeric_buf store deps=num~NumericBuf::from_raw_parts;data~NumericData::set_header;data~NumericData::into_raw_parts
@spec
    requires self.digits.ok(), 0 <= self.ndigits <= self.digits.ds().len(), self.ndigits <= 0x0fff_0000, -32768 <= self.weight <= 32767, 0 <= self.dscale <= 16383,
        self.sign == 0 || self.sign == 0x4000 || self.sign == 0xC000, self.sign == 0xC000 ==> self.weight == 0 && self.dscale == 0 && self.ndigits == 0
    ensures ret.nv() == self.view()
@sub buf as * const u8 ==> buf.bytes()
@at begin
    let ghost v0 = self.view();
@at let data
    let ghost m0 = data.buf();
@at let header_offset
    proof { assert(v0.digits =~= m0.subrange(data.off(), data.off() + v0.digits.len())); if v0.nan { assert(v0.digits =~= Seq::<i16>::empty()); } assert(enco(v0)); lemma_place(v0, m0, data.off(), data.buf()); lemma_dec_enc(v0); reveal(raw_wf); reveal(raw_ws); }

@fn num Numeric::as_var
@spec
    ensures ret.view() == self.nv(), ret.digits.ok(), ret.ndigits == ret.digits.ds().len(), ret.digits is Borrowed

@fn num Numeric::is_nan
@spec
    ensures ret == self.nv().nan

@fn num Numeric::is_negative
@spec
    ensures ret == (self.nv().sign == 0x4000)

@fn num Numeric::is_positive
@spec
    ensures ret == (self.nv().sign == 0)

@fn num Numeric::scale
@spec
    ensures self.nv().nan ==> ret is None, !self.nv().nan ==> ret is Some && ret.unwrap() == self.nv().dscale

@fn num NumericBuf::nan
@spec
    ensures ret.nv() == nan_view(), ret.can()
@at begin
    proof { assert(nan_view().can()); }

@fn num NumericBuf::zero
@spec
    ensures ret.nv().is(0, 0)
@at begin
    proof { assert(Seq::<i16>::empty().len() == 0); lemma_zero_view(); }

@fn num NumericBuf::clone trait=Clone
@spec
    requires self.can()
    ensures ret.nv() == self.nv()

@fn var NumericVar::make_result
@spec
    requires self.gst(), self.ndigits <= 0x0fff_0000
    ensures self.dscale > 16383 ==> ret is None, self.wst() ==> (ret is Some <==> fits(iabs(self.iv()), self.dscale as int)),
        self.wst() ==> (ret matches Some(b) ==> !b.nv().nan && b.nv().dscale == self.dscale && b.nv().iv() == self.iv() && b.nv().mag() == self.mag() && (dvd(U(self.dscale as int), self.iv()) ==> b.can()))
@at begin
    let ghost v0 = self;
    proof { if self.wst() { lemma_val_bounds(self.sd(), self.weight + KK); } }
@at return 0
    proof { if v0.wst() { lemma_val_bounds(self_.sd(), self_.weight + KK); lemma_fits(&self_); } }
@at end-pre
    proof { if v0.wst() { lemma_val_bounds(self_.sd(), self_.weight + KK); lemma_fits(&self_); lemma_norm_can(&self_, v0.iv()); } }

@fn var NumericVar::make_result_no_overflow
@spec
    requires self.st(), fits(iabs(self.iv()), self.dscale as int)
    ensures !ret.nv().nan && ret.nv().dscale == self.dscale && ret.nv().iv() == self.iv() && ret.nv().mag() == self.mag() && (dvd(U(self.dscale as int), self.iv()) ==> ret.can())
@at begin
    let ghost v0 = self;
    proof { lemma_val_bounds(self.sd(), self.weight + KK); }
@at call strip
    proof { lemma_val_bounds(self_.sd(), self_.weight + KK); }
@at end-pre
    proof { lemma_fits(&self_); }
@at end
    proof { lemma_norm_can(&self_, v0.iv()); }
