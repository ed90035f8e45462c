@fn error NumericParseError::new
@spec
    ensures ret.kind == kind

@fn error NumericParseError::empty
@spec
    ensures ret.kind is Empty

@fn error NumericParseError::invalid
@spec
    ensures ret.kind is Invalid

@fn error NumericParseError::overflow
@spec
    ensures ret.kind is Overflow

@fn parse eat_whitespaces
@spec
    ensures ret@ == sfrom(s@, wrun(s@)), 0 <= wrun(s@) <= s@.len(), ret@.len() > 0 ==> !wsc(ret@[0])
@at inv 0
    invariant_except_break count__ == it__0
    invariant it__0 <= hi__0, hi__0 == s@.len(), count__ <= it__0, forall|j: int| 0 <= j < count__ ==> wsc(#[trigger] s@[j])
    ensures is_wrun(s@, count__ as int)
    decreases hi__0 - it__0
@at let i
    proof { lemma_wrun(s@, i as int); }

@fn parse eat_digits
@spec
    ensures ret.0@ == s@.subrange(0, run(s@)), ret.1@ == sfrom(s@, run(s@)), 0 <= run(s@) <= s@.len(), all_d(ret.0@), is_run(s@, run(s@))
@at inv 0
    invariant_except_break count__ == it__0
    invariant it__0 <= hi__0, hi__0 == s@.len(), count__ <= it__0, forall|j: int| 0 <= j < count__ ==> digitc(#[trigger] s@[j])
    ensures is_run(s@, count__ as int)
    decreases hi__0 - it__0
@at let i
    proof { lemma_run(s@, i as int); }

@fn parse extract_nan
@spec
    ensures ret.0 == is_nanw(s@), ret.1@ == (if is_nanw(s@) { sfrom(s@, 3) } else { s@ })
@at call vlower
    let ghost b0 = buf@;
    proof { assert(b0 =~= s@.subrange(0, 3)); }
@at then 1
    proof { assert(buf@[0] == 110 && buf@[1] == 97 && buf@[2] == 110); assert(b0[0] == s@[0] && b0[1] == s@[1] && b0[2] == s@[2]); }
@at else 1
    proof { if is_nanw(s@) { assert(b0[0] == s@[0] && b0[1] == s@[1] && b0[2] == s@[2]); assert(buf@ =~= [110u8, 97u8, 110u8]@); } }

@fn parse extract_sign
@spec
    ensures (ret.0 is Negative) == sg_neg(s@), ret.1@ == sfrom(s@, sg_n(s@))

@fn parse extract_exponent
@spec
    ensures match sp_exp(s@) { Err(k) => ret matches Err(e) && e.kind == k, Ok(x) => ret matches Ok(y) && y.0 == x.0 && y.1@ == x.1 && -1073741823 < x.0 < 1073741823 }
@at let number_s
    let ghost d = number@;
@at inv 0
    invariant all_d(number@), dv(number@) == dv(d)
    decreases number@.len()
@at body 0
    proof { lemma_dv_lead(number@); assert forall|i: int| 0 <= i < sfrom(number@, 1).len() implies digitc(#[trigger] sfrom(number@, 1)[i]) by { assert(digitc(number@[i + 1])); } }
@at after 0
    proof { lemma_dv_bounds(number@); lemma_t0(); if number@.len() > 10 { lemma_tmono(10, number@.len() - 1); } else { lemma_tmono(number@.len() as int, 10); } assert(t(10) == 10000000000) by { reveal_with_fuel(t, 12); } }
@at inv 1
    invariant 0 <= it__1 <= hi__1, hi__1 == number@.len(), hi__1 <= 10, all_d(number@), result == dv(number@.subrange(0, it__1 as int)), 0 <= result < t(it__1 as int), t(10) == 10000000000
    decreases hi__1 - it__1
@at body 1
    proof { let a = number@.subrange(0, it__1 as int); assert(a.drop_last() =~= number@.subrange(0, it__1 - 1)); assert(digitc(number@[it__1 - 1])); lemma_tS(it__1 as int); lemma_tmono(it__1 as int, 10); }
@at after 1
    proof { assert(number@.subrange(0, it__1 as int) =~= number@); }
@at before 1
    proof { lemma_t0(); }

@fn parse parse_decimal
@spec
    ensures match sp_dec(s@) { Err(k) => ret matches Err(e) && e.kind == k, Ok(x) => ret matches Ok(y) && (y.0.sign is Negative) == x.neg && y.0.integral@ == x.ip && y.0.fractional@ == x.fp && y.0.exp == x.e && y.1@ == x.rest
        && -1073741823 < x.e < 1073741823 && x.ip.len() + x.fp.len() <= s@.len() && x.ip.len() + x.fp.len() > 0 && all_d(x.ip) && all_d(x.fp) }
@at begin
    let ghost s0 = s@;
@at then 0
    proof { lemma_run(s@, 0); }

@fn parse read_numeric_digit
@spec
    requires s@.len() <= 4, forall|i: int| 0 <= i < s@.len() ==> s@[i] <= 9
    ensures ret == dvv(s@), 0 <= ret < 10000
@at inv 0
    invariant 0 <= it__0 <= hi__0, hi__0 == s@.len(), hi__0 <= 4, forall|i: int| 0 <= i < s@.len() ==> s@[i] <= 9, digit == dvv(s@.subrange(0, it__0 as int)), 0 <= digit < t(it__0 as int), t(4) == 10000
    decreases hi__0 - it__0
@at before 0
    proof { lemma_t0(); }
@at body 0
    proof { let a = s@.subrange(0, it__0 as int); assert(a.drop_last() =~= s@.subrange(0, it__0 - 1)); lemma_tS(it__0 as int); lemma_tmono(it__0 as int, 4); }
@at after 0
    proof { assert(s@.subrange(0, it__0 as int) =~= s@); lemma_tmono(it__0 as int, 4); }

@fn parse parse_str
@spec
    requires s@.len() <= 0x3ff0_0000
    ensures match sp_dec(s@) { Err(k) => ret matches Err(e) && e.kind == k, Ok(d) => ret matches Ok(y) && y.1@ == d.rest && y.0.ndigits <= 0x0fff_0000 && y.0.gst() && y.0.dscale == psc(d) && y.0.sign == (if d.neg { 0x4000u16 } else { 0u16 })
        && (psc(d) <= 16383 ==> y.0.wst() && y.0.mag() == pmag(d)) }
@at begin
    let ghost d = match sp_dec(s@) { Ok(x) => x, Err(k) => arbitrary() };
@at let ndigits
    let ghost b = integral@ + fractional@; let ghost n = ndigits as int; let ghost off = offset as int;
    proof { assert(0 <= off <= 3); assert(n >= 1); }
@at inv 0
    invariant 0 <= it__0 <= hi__0, hi__0 == integral@.len(), all_d(integral@), dec_digits@.len() == 4 + it__0, forall|j: int| 0 <= j < 4 ==> dec_digits@[j] == 0, forall|j: int| 0 <= j < it__0 ==> #[trigger] dec_digits@[4 + j] == integral@[j] - 48
    decreases hi__0 - it__0
@at body 0
    proof { assert(digitc(integral@[it__0 - 1])); }
@at inv 1
    invariant 0 <= it__1 <= hi__1, hi__1 == fractional@.len(), all_d(fractional@), all_d(integral@), b == integral@ + fractional@, dec_digits@.len() == 4 + integral@.len() + it__1, forall|j: int| 0 <= j < 4 ==> dec_digits@[j] == 0, forall|j: int| 0 <= j < integral@.len() + it__1 ==> #[trigger] dec_digits@[4 + j] == b[j] - 48
    decreases hi__1 - it__1
@at body 1
    proof { assert(digitc(fractional@[it__1 - 1])); }
@at let data
    let ghost e = dec_digits@;
    proof { assert(all_d(b)) by { assert forall|i: int| 0 <= i < b.len() implies digitc(#[trigger] b[i]) by { if i < integral@.len() { assert(digitc(integral@[i])); } else { assert(digitc(fractional@[i - integral@.len()])); } } }
        assert forall|j: int| 0 <= j < e.len() implies #[trigger] e[j] <= 9 by { if j < 4 { } else if j < 4 + b.len() { assert(e[4 + (j - 4)] == b[j - 4] - 48); assert(digitc(b[j - 4])); } else { } } }
@at inv 2
    invariant 0 <= it__2 <= hi__2, hi__2 == n, iter.wf(), iter.n == n, iter.k == 4, iter.s@ == sfrom(e, 4 - off), 0 <= off <= 3, 4 - off + 4 * n <= e.len(), digits@.len() == n,
        forall|j: int| 0 <= j < e.len() ==> #[trigger] e[j] <= 9,
        forall|j: int| 0 <= j < it__2 ==> #[trigger] digits@[j] == dvv(e.subrange(4 - off + 4 * j, 4 - off + 4 * j + 4)) && 0 <= digits@[j] < 10000
    decreases hi__2 - it__2
@at body 2
    proof { assert(chunk@ =~= e.subrange(4 - off + 4 * i, 4 - off + 4 * i + 4)); }
@at after 2
    let ghost df = digits@;
@at let num
    proof {
        assert(num.sd() =~= df);
        let w = weight as int; let fl = d.fp.len() as int;
        assert(b == d.ip + d.fp);
        assert(digs(num.sd()));
        if psc(d) <= 16383 { lemma_parse_value(num.sd(), w, e, b, off, fl, d.e); }
    }

@fn parse from_str
@spec
    requires s.spec_bytes().len() <= 0x3ff0_0000
    ensures parsed(ret, s.spec_bytes())
@at begin
    let ghost b0 = s.spec_bytes();
@at let s
    proof { assert(s@ == b0); }
@at inv 0
    invariant_except_break !any__, forall|j: int| 0 <= j < it__0 ==> wsc(#[trigger] s@[j])
    invariant it__0 <= hi__0, hi__0 == s@.len()
    ensures any__ == !all_w(s@)
    decreases hi__0 - it__0
@at else 1
    let ghost d = match sp_dec(s@) { Ok(x) => x, Err(k) => arbitrary() };
    proof { assert(d.fp.len() >= 0); if psc(d) <= 16383 { lemma_parsed_can(d); } }
@at inv 1
    invariant_except_break !any__, forall|j: int| 0 <= j < it__1 ==> wsc(#[trigger] s@[j])
    invariant it__1 <= hi__1, hi__1 == s@.len()
    ensures any__ == !all_w(s@)
    decreases hi__1 - it__1

@fn parse NumericBuf::from_str trait=FromStr
@spec
    requires s.spec_bytes().len() <= 0x3ff0_0000
    ensures parsed(ret, s.spec_bytes())
