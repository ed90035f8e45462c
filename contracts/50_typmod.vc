## C14: type modifiers
@fn typmod Typmod::new_unchecked
@spec
    requires 1 <= precision <= 1000, 0 <= scale <= precision
    ensures tm_is(ret, precision as int, scale as int)
@at begin
    assert(((precision << 16i32) | scale) == precision * 65536 + scale && 0 <= ((precision << 16i32) | scale) < 0x7fff_0000) by (bit_vector) requires 1 <= precision <= 1000, 0 <= scale <= precision;

@fn typmod Typmod::with_precision_unchecked
@spec
    requires 1 <= precision <= 1000
    ensures tm_is(ret, precision as int, 0)
@at begin
    assert((precision << 16i32) == precision * 65536 && 0 <= (precision << 16i32) < 0x7fff_0000) by (bit_vector) requires 1 <= precision <= 1000;

@fn typmod Typmod::new
@spec
    ensures ret is Some <==> (1 <= precision <= 1000 && 0 <= scale <= precision), ret matches Some(t) ==> tm_is(t, precision as int, scale as int)

@fn typmod Typmod::with_precision
@spec
    ensures ret is Some <==> 1 <= precision <= 1000, ret matches Some(t) ==> tm_is(t, precision as int, 0)

@fn typmod Typmod::from_value_unchecked
@spec
    ensures ret.0 == value

@fn typmod Typmod::value
@spec
    ensures ret == self.0

@fn typmod Typmod::default trait=Default
@spec
    ensures ret.0 == -1

@fn typmod Typmod::extract
@spec
    requires self.0 >= -0x7fff_0000
    ensures forall|p: int, s: int| tm_is(self, p, s) ==> ret.0 == p && ret.1 == s
@at let t
    proof {
        assert forall|p: int, s: int| tm_is(self, p, s) implies ((t >> 16i32) & 0xFFFF) == p && (t & 0xFFFF) == s by {
            let a = p as i32; let b = s as i32;
            assert(((t >> 16i32) & 0xFFFF) == a && (t & 0xFFFF) == b) by (bit_vector) requires t == a * 65536 + b, 1 <= a <= 1000, 0 <= b <= 1000;
        }
    }

@fn var NumericVar::apply_typmod
@spec
    requires old(self).st(), old(self).weight <= 98000, old(self).ndigits <= 98000, typmod.0 == -1 || tm_ok(typmod)
    ensures typmod.0 == -1 ==> !ret && *final(self) == *old(self),
        forall|p: int, s: int| tm_is(typmod, p, s) ==> final(self).st() && final(self).dscale == s && final(self).mag() == roundm(old(self).mag(), s)
            && (final(self).sign == old(self).sign || final(self).sign == 0 && final(self).mag() == 0) && ret == (final(self).mag() >= U(s - p)),
@at let max_digits
    let ghost gp = precision as int; let ghost gs = scale as int;
    proof { let (p, s) = choose|p: int, s: int| tm_is(typmod, p, s); }
@at let ddigits
    let ghost s = self.sd(); let ghost w = self.weight as int;
    proof { lemma_val_bounds(s, w + KK); lemma_pt(w + KK + 1); lemma_tpos(4 * KK + gp - gs); if ddigits <= max_digits { lemma_tmono(4 * (w + KK + 1), 4 * KK + gp - gs); } }
@at inv 0
    invariant_except_break ddigits == (w + 1 - it__0) * 4, forall|j: int| 0 <= j < it__0 ==> s[j] == 0, it__0 == s.len() ==> self.mag() < U(gs - gp),
    invariant it__0 <= hi__0, hi__0 == s.len(), self.st(), self.sd() == s, self.weight == w, -99000 <= w <= 99000, s.len() <= 99000, digs(s),
        max_digits == gp - gs, 0 <= gp - gs <= 1000, s.len() - 1 - w <= 99000, self.mag() == V(s, w), typmod.0 != -1, forall|p: int, s: int| tm_is(typmod, p, s) ==> p == gp && s == gs,
        self.dscale == gs, self.mag() == roundm(old(self).mag(), gs), self.sign == old(self).sign || self.sign == 0 && self.mag() == 0,
    ensures self.mag() < U(gs - gp),
    decreases hi__0 - it__0
@at before 0
    proof { if s.len() == 0 { lemma_val_empty(s, w + KK); } }
@at bot 0
    proof { if it__0 == s.len() { lemma_lead(s, w, it__0 as int); } }
@at then 2
    let ghost d = dig as int; let ghost i = it__0 - 1;
    proof { lemma_lead(s, w, i); lemma_decw(d, w - i + KK); let f = 4 * (w - i) + dw(d); if f <= max_digits { lemma_tmono(4 * KK + f, 4 * KK + gp - gs); } else { lemma_tmono(4 * KK + gp - gs, 4 * KK + f - 1); } }

@fn num NumericBuf::apply_typmod
@spec
    requires old(self).can(), typmod.0 == -1 || tm_ok(typmod)
    ensures old(self).nv().nan ==> !ret && final(self).nv() == nan_view(),
        !old(self).nv().nan && typmod.0 == -1 ==> !ret && final(self).nv().is(old(self).nv().iv(), old(self).nv().dscale),
        forall|p: int, s: int| tm_is(typmod, p, s) && !old(self).nv().nan ==> {
            let v = round_iv(old(self).nv().iv(), s);
            &&& ret == (iabs(v) >= U(s - p))
            &&& fits(iabs(v), s) ==> final(self).nv().is(v, s)
            &&& !fits(iabs(v), s) ==> final(self).nv() == old(self).nv()
        },
        final(self).can()
@at begin
    proof { lemma_can_facts(self.nv()); 
        if !self.nv().nan { assert forall|p: int, s: int| tm_is(typmod, p, s) implies dvd(U(s), round_iv(self.nv().iv(), s)) && (fits(iabs(round_iv(self.nv().iv(), s)), s) || iabs(round_iv(self.nv().iv(), s)) >= U(s - p)) && iabs(round_iv(self.nv().iv(), s)) == roundm(self.nv().mag(), s) by {
            lemma_round_facts(self.nv().iv(), s); lemma_round_fits(self.nv(), s, p); } } }
    let ghost tp = choose|ps: (int, int)| #[trigger] tm_is(typmod, ps.0, ps.1);
    proof { if tm_ok(typmod) { let (p, s) = choose|p: int, s: int| tm_is(typmod, p, s); let q = (p, s); assert(tm_is(typmod, q.0, q.1)); } }

@fn num NumericBuf::round_mut
@spec
    requires old(self).can()
    ensures old(self).nv().nan ==> final(self).nv() == nan_view(),
        !old(self).nv().nan ==> final(self).nv().is(round_iv(old(self).nv().iv(), clamp1000(scale as int)), imax(clamp1000(scale as int), 0))
@panics VALUE_OVERFLOW_MSG !self.nv().nan && !fits(iabs(round_iv(self.nv().iv(), clamp1000(scale as int))), imax(clamp1000(scale as int), 0))
@at begin
    proof { lemma_can_facts(self.nv()); if !self.nv().nan { lemma_round_facts(self.nv().iv(), clamp1000(scale as int)); } }
@at arm 0.1
    proof { assert(self.nv() == old(self).nv()); }

@fn num NumericBuf::trunc_mut
@spec
    requires old(self).can()
    ensures old(self).nv().nan ==> final(self).nv() == nan_view(),
        !old(self).nv().nan ==> final(self).nv().is(trunc_iv(old(self).nv().iv(), clamp1000(scale as int)), imax(clamp1000(scale as int), 0))
@at begin
    proof { lemma_can_facts(self.nv()); if !self.nv().nan { lemma_round_facts(self.nv().iv(), clamp1000(scale as int)); lemma_trunc_fits(self.nv(), clamp1000(scale as int)); } }
