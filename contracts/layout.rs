// ---------------------------------------------------------------- PostgreSQL's on-disk form of a numeric, as 16-bit words
pub open spec fn u16i(x: i16) -> int { if x < 0 { x + 65536 } else { x as int } }
pub open spec fn i16w(x: int) -> i16 { (if x >= 32768 { x - 65536 } else { x }) as i16 }
pub open spec fn short_header(sign: u16, weight: int, dscale: int) -> int
{ if sign == 0xC000 { 0xC000 } else { 0x8000 + (if sign == 0x4000 { 0x2000int } else { 0 }) + dscale * 128 + (if weight < 0 { weight + 128 } else { weight }) } }
pub open spec fn hdr_of(sign: u16, weight: int, dscale: int) -> Seq<i16> { if sign == 0xC000 || (dscale <= 63 && -64 <= weight <= 63) { seq![i16w(short_header(sign, weight, dscale))] } else { seq![i16w(sign + dscale), weight as i16] } }
pub open spec fn hdr(v: NView) -> Seq<i16> { hdr_of(v.sign, v.weight, v.dscale) }
pub open spec fn zero_view() -> NView { NView { nan: false, sign: 0, weight: 0, dscale: 0, digits: seq![] } }
// fields of a first header word
pub open spec fn flag(h: int) -> int { if h >= 0xC000 { 0xC000 } else if h >= 0x8000 { 0x8000 } else if h >= 0x4000 { 0x4000 } else { 0 } }
pub open spec fn is_nan_h(h: int) -> bool { h >= 0xC000 }
pub open spec fn is_short_h(h: int) -> bool { 0x8000 <= h < 0xC000 }
pub open spec fn header_is_short_h(h: int) -> bool { h >= 0x8000 }
pub open spec fn sign_h(h: int) -> u16 { if h >= 0xC000 { 0xC000u16 } else if h >= 0x8000 { if (h / 0x2000) % 2 == 1 { 0x4000u16 } else { 0u16 } } else if h >= 0x4000 { 0x4000u16 } else { 0u16 } }
pub open spec fn dscale_h(h: int) -> int { if h >= 0x8000 { (h / 128) % 64 } else { h % 0x4000 } }
pub open spec fn weight_h(h: int) -> int { if h % 128 >= 64 { h % 128 - 128 } else { h % 128 } }
// a varlena length word for n bytes
pub open spec fn len_words(n: int) -> Seq<i16> { seq![i16w((4 * n) % 65536), i16w((4 * n) / 65536)] }
pub open spec fn encode(v: NView) -> Seq<i16> { len_words(2 * (2 + hdr(v).len() + v.digits.len() as int)) + hdr(v) + v.digits }
// what the format can hold
pub open spec fn enco(v: NView) -> bool {
    if v.nan { v == nan_view() } else { (v.sign == 0 || v.sign == 0x4000) && -32768 <= v.weight <= 32767 && 0 <= v.dscale <= 16383 && v.digits.len() <= 0x0fff_0000 }
}
pub open spec fn len32(w: Seq<i16>) -> int { u16i(w[0]) + 65536 * u16i(w[1]) }
pub open spec fn dlen(w: Seq<i16>) -> int { len32(w) / 4 }
// words before the first digit
pub open spec fn hlen(w: Seq<i16>) -> int { if u16i(w[2]) >= 0x8000 { 3 } else { 4 } }
pub open spec fn decode(w: Seq<i16>) -> NView {
    let h = u16i(w[2]); let n = w.len() as int;
    if h >= 0xC000 { nan_view() }
    else if h >= 0x8000 { NView { nan: false, sign: sign_h(h), weight: weight_h(h), dscale: dscale_h(h), digits: w.subrange(3, n) } }
    else { NView { nan: false, sign: sign_h(h), weight: w[3] as int, dscale: dscale_h(h), digits: w.subrange(4, n) } }
}
pub open spec fn wfw(w: Seq<i16>) -> bool { 3 <= w.len() && dlen(w) == 2 * w.len() && 0 <= w.len() - hlen(w) <= 0x0fff_0000 }
// bytes, least significant first (little-endian target)
pub open spec fn wb(w: Seq<i16>) -> Seq<u8> { Seq::new((2 * w.len()) as nat, |i: int| (if i % 2 == 0 { u16i(w[i / 2]) % 256 } else { u16i(w[i / 2]) / 256 }) as u8) }
pub open spec fn bw(b: Seq<u8>) -> Seq<i16> { Seq::new((b.len() / 2) as nat, |i: int| i16w(b[2 * i] + 256 * b[2 * i + 1])) }
pub open spec fn nwf(b: Seq<u8>) -> bool { b.len() % 2 == 0 && wfw(bw(b)) }
// C12: the byte form of v
pub open spec fn byte_form(v: NView) -> Seq<u8> { wb(encode(v)) }
pub proof fn lemma_bw_wb(w: Seq<i16>) ensures bw(wb(w)) == w {
    assert forall|i: int| 0 <= i < w.len() implies bw(wb(w))[i] == w[i] by {
        let b = wb(w); assert((2 * i) % 2 == 0 && (2 * i) / 2 == i && (2 * i + 1) % 2 == 1 && (2 * i + 1) / 2 == i);
        assert(b[2 * i] as int == u16i(w[i]) % 256); assert(b[2 * i + 1] as int == u16i(w[i]) / 256);
    }
    assert(bw(wb(w)) =~= w);
}
pub proof fn lemma_wb_sub(w: Seq<i16>, a: int, c: int) requires 0 <= a <= c <= w.len() ensures wb(w).subrange(2 * a, 2 * c) == wb(w.subrange(a, c)) {
    assert forall|i: int| 0 <= i < 2 * (c - a) implies wb(w).subrange(2 * a, 2 * c)[i] == wb(w.subrange(a, c))[i] by {
        assert((2 * a + i) % 2 == i % 2 && (2 * a + i) / 2 == a + i / 2);
    }
    assert(wb(w).subrange(2 * a, 2 * c) =~= wb(w.subrange(a, c)));
}
pub proof fn lemma_i16w(x: int) requires 0 <= x < 65536 ensures u16i(i16w(x)) == x {}
// C12: reading the encoded form gives the same numeric back
pub proof fn lemma_dec_enc(v: NView) requires enco(v) ensures decode(encode(v)) == v, wfw(encode(v)), hlen(encode(v)) == 2 + hdr(v).len(), encode(v).len() == 2 + hdr(v).len() + v.digits.len(), len32(encode(v)) == 8 * encode(v).len() {
    let e = encode(v); let n = 2 * (2 + hdr(v).len() + v.digits.len() as int); let h = u16i(e[2]);
    assert(0 <= 4 * n < 0x1_0000_0000); assert(0 <= (4 * n) % 65536 < 65536); assert(0 <= (4 * n) / 65536 < 65536);
    lemma_i16w((4 * n) % 65536); lemma_i16w((4 * n) / 65536);
    assert(e[0] == len_words(n)[0]); assert(e[1] == len_words(n)[1]); assert(e[2] == hdr(v)[0]);
    assert(len32(e) == 4 * n);
    if v.sign == 0xC000 || (v.dscale <= 63 && -64 <= v.weight <= 63) {
        let x = short_header(v.sign, v.weight, v.dscale); lemma_i16w(x); assert(h == x);
        if v.nan { assert(decode(e) == v); } else {
            let sg = if v.sign == 0x4000 { 1int } else { 0 }; let w = if v.weight < 0 { v.weight + 128 } else { v.weight };
            assert(x == 0x8000 + sg * 0x2000 + v.dscale * 128 + w);
            assert(h / 0x2000 == 4 + sg && h / 128 == 256 + 64 * sg + v.dscale && h % 128 == w) by {
                lemma_div_unique(h, 128, 256 + 64 * sg + v.dscale, w); lemma_div_unique(h, 0x2000, 4 + sg, v.dscale * 128 + w);
            }
            assert((h / 128) % 64 == v.dscale) by { lemma_div_unique(h / 128, 64, 4 + sg, v.dscale); }
            assert(e.subrange(3, e.len() as int) =~= v.digits);
            assert(decode(e).sign == v.sign && decode(e).weight == v.weight && decode(e).dscale == v.dscale && decode(e).digits == v.digits && decode(e).nan == v.nan); assert(decode(e) == v);
        }
    } else {
        lemma_i16w(v.sign + v.dscale); assert(e[3] == hdr(v)[1]);
        assert(e.subrange(4, e.len() as int) =~= v.digits);
        assert(h % 0x4000 == v.dscale) by { lemma_div_unique(h, 0x4000, (if v.sign == 0x4000 { 1int } else { 0 }), v.dscale); }
        assert(decode(e).sign == v.sign && decode(e).weight == v.weight && decode(e).dscale == v.dscale && decode(e).digits == v.digits && decode(e).nan == v.nan); assert(decode(e) == v);
    }
}
// C12: a canonical numeric fits the format, and its bytes read back as itself
pub proof fn lemma_bytes_back(v: NView) requires v.can() ensures enco(v), nwf(byte_form(v)), bw(byte_form(v)) == encode(v), decode(bw(byte_form(v))) == v, byte_form(v).len() == 2 * encode(v).len()
{
    if v.nan { assert(v.digits =~= Seq::<i16>::empty()); }
    assert(enco(v)); lemma_dec_enc(v); lemma_bw_wb(encode(v));
}
// ... so different numerics have different bytes
pub proof fn lemma_bytes_inj(u: NView, v: NView) requires u.can(), v.can(), byte_form(u) == byte_form(v) ensures u == v { lemma_bytes_back(u); lemma_bytes_back(v); }
// ... NaN is six bytes
pub proof fn lemma_bytes_nan() ensures byte_form(nan_view()) == seq![24u8, 0, 0, 0, 0, 0xC0]
{
    let v = nan_view(); let e = encode(v); let b = byte_form(v); lemma_i16w(24); lemma_i16w(0); lemma_i16w(0xC000); assert(hdr(v).len() == 1 && v.digits.len() == 0); assert(e.len() == 3);
    assert(e[0] == len_words(6)[0] && e[1] == len_words(6)[1] && e[2] == hdr(v)[0]); assert(u16i(e[0]) == 24 && u16i(e[1]) == 0 && u16i(e[2]) == 0xC000);
    assert(b.len() == 6 && b[0] == 24 && b[1] == 0 && b[2] == 0 && b[3] == 0 && b[4] == 0 && b[5] == 0xC0); assert(b =~= seq![24u8, 0, 0, 0, 0, 0xC0]);
}
// ... the length word covers the whole value, the header is short exactly when scale and weight fit it, the digits follow, most significant first
pub proof fn lemma_bytes_parts(v: NView) requires v.can(), !v.nan
    ensures len32(encode(v)) == 4 * byte_form(v).len(), ({ let h = if v.dscale <= 63 && -64 <= v.weight <= 63 { 3int } else { 4 }; encode(v).len() == h + v.digits.len() && hlen(encode(v)) == h && encode(v).subrange(h, h + v.digits.len()) == v.digits })
{
    lemma_bytes_back(v); lemma_dec_enc(v); let e = encode(v);
    let h = if v.dscale <= 63 && -64 <= v.weight <= 63 { 3int } else { 4 }; assert(e.subrange(h, h + v.digits.len()) =~= v.digits);
}
pub proof fn lemma_hbits(h: u16) ensures
    h & 0xC000 == (if h >= 0xC000 { 0xC000u16 } else if h >= 0x8000 { 0x8000u16 } else if h >= 0x4000 { 0x4000u16 } else { 0u16 }), (h & 0x8000 != 0) == (h >= 0x8000),
    (h & 0x2000 != 0) == ((h as int / 0x2000) % 2 == 1), (h & 0x1F80) >> 7u16 == (h as int / 128) % 64, h & 0x3FFF == h as int % 0x4000,
    (h & 0x40 != 0) == (h as int % 128 >= 64), h & 0x40 != 0 ==> ((!0x3Fu16) | (h & 0x3F)) as i16 == h as int % 128 - 128, h & 0x40 == 0 ==> (h & 0x3F) as i16 == h as int % 128, h & 0x3F <= 63, (h & 0x3F) == h as int % 64
{
    assert(h & 0xC000 == (if h >= 0xC000 { 0xC000u16 } else if h >= 0x8000 { 0x8000u16 } else if h >= 0x4000 { 0x4000u16 } else { 0u16 })) by (bit_vector);
    assert((h & 0x8000 != 0) == (h >= 0x8000)) by (bit_vector);
    assert((h & 0x2000 != 0) == ((h / 0x2000) % 2 == 1)) by (bit_vector);
    assert((h & 0x1F80) >> 7u16 == (h / 128) % 64) by (bit_vector);
    assert(h & 0x3FFF == h % 0x4000) by (bit_vector);
    assert((h & 0x40 != 0) == (h % 128 >= 64)) by (bit_vector);
    assert(h & 0x40 != 0 ==> ((!0x3Fu16) | (h & 0x3F)) as i16 == (h % 128) as i16 - 128) by (bit_vector);
    assert(h & 0x40 == 0 ==> (h & 0x3F) as i16 == (h % 128) as i16) by (bit_vector);
    assert(h & 0x3F == h % 64) by (bit_vector);
}
pub proof fn lemma_short_bits(sign: u16, weight: i16, dscale: u16) requires sign == 0 || sign == 0x4000, dscale <= 63, -64 <= weight <= 63
    ensures ({ let s = if sign == 0x4000 { 0x8000u16 | 0x2000u16 } else { 0x8000u16 }; let ws = if weight < 0 { 0x40u16 } else { 0u16 };
        (s | (dscale << 7u16) | ws | ((weight & 0x3F) as u16)) == short_header(sign, weight as int, dscale as int) })
{
    assert(dscale <= 63 && -64 <= weight < 0 ==> (0x8000u16 | 0x2000u16 | (dscale << 7u16) | 0x40u16 | ((weight & 0x3F) as u16)) == 0xA000u16 + dscale * 128u16 + (weight + 128) as u16) by (bit_vector);
    assert(dscale <= 63 && -64 <= weight < 0 ==> (0x8000u16 | (dscale << 7u16) | 0x40u16 | ((weight & 0x3F) as u16)) == 0x8000u16 + dscale * 128u16 + (weight + 128) as u16) by (bit_vector);
    assert(dscale <= 63 && 0 <= weight <= 63 ==> (0x8000u16 | 0x2000u16 | (dscale << 7u16) | 0u16 | ((weight & 0x3F) as u16)) == 0xA000u16 + dscale * 128u16 + weight as u16) by (bit_vector);
    assert(dscale <= 63 && 0 <= weight <= 63 ==> (0x8000u16 | (dscale << 7u16) | 0u16 | ((weight & 0x3F) as u16)) == 0x8000u16 + dscale * 128u16 + weight as u16) by (bit_vector);
}
pub proof fn lemma_long_bits(sign: u16, dscale: u16) requires sign == 0 || sign == 0x4000, dscale <= 16383 ensures sign | (dscale & 0x3FFF) == sign + dscale
{
    assert(dscale <= 16383 ==> (0u16 | (dscale & 0x3FFF)) == dscale) by (bit_vector);
    assert(dscale <= 16383 ==> (0x4000u16 | (dscale & 0x3FFF)) == 0x4000u16 + dscale) by (bit_vector);
}
// a header and length word written right before the digits of v
pub proof fn lemma_place(v: NView, m0: Seq<i16>, off: int, m: Seq<i16>)
    requires enco(v), 4 <= off, off + v.digits.len() <= m0.len(), v.digits == m0.subrange(off, off + v.digits.len()),
        m == m0.subrange(0, off - 2 - hdr(v).len()) + len_words(2 * (2 + hdr(v).len() + v.digits.len() as int)) + hdr(v) + m0.subrange(off, m0.len() as int)
    ensures m.len() == m0.len(), ({ let o = off - 2 - hdr(v).len(); dlen(m.subrange(o, m.len() as int)) == 2 * encode(v).len() && m.subrange(o, o + encode(v).len()) == encode(v) })
{
    let o = off - 2 - hdr(v).len(); let e = encode(v); let t = m.subrange(o, m.len() as int);
    lemma_dec_enc(v);
    assert(m.subrange(o, o + e.len()) =~= e);
    assert(t[0] == e[0] && t[1] == e[1]) by { assert(m[o] == e[0] && m[o + 1] == e[1]); }
}
