## rounding and truncation at a decimal scale
@fn var NumericVar::round_common rlimit=60
@spec
    requires old(self).st0(), old(self).weight <= 98000, old(self).ndigits <= 98000, -99000 <= rscale <= 200000
    ensures final(self).st0(), final(self).dscale == rscale, final(self).mag() == roundm(old(self).mag(), rscale as int),
        final(self).sign == old(self).sign || final(self).sign == 0 && final(self).mag() == 0 && final(self).ndigits == 0,
        final(self).ndigits <= old(self).ndigits + 1,
        final(self).ndigits > 0 ==> old(self).weight <= final(self).weight <= old(self).weight + 1 && final(self).ndigits - 1 - final(self).weight <= old(self).ndigits - 1 - old(self).weight,
        final(self).ndigits == 0 ==> final(self).weight == 0 || final(self).weight == old(self).weight,
        final(self).ndigits > 0 && final(self).weight == old(self).weight + 1 ==> final(self).sd()[0] == 1
@at begin
    let ghost s = self.sd(); let ghost w = self.weight as int; let ghost n = self.ndigits as int; let ghost rs = rscale as int;
    proof { lemma_val_bounds(s, w + KK); }
@at then 0
    proof { lemma_round_small(s, w, rs); }
@at fi 0
    proof { lemma_val_empty(self.sd(), self.weight + KK); }
@at let di#2
    let ghost nd = ndigits as int; let ghost e = w + KK + 1 - nd;
    proof { lemma_t0(); if nd > n || (nd == n && di == 0) { lemma_round_noop(s, w, rs); } }
@at call reserve_rounding_digit
    proof { assert(data.off() + n <= data.buf().len()); }
    let ghost bb = data.ds();
@at fi 2
    proof { assert(data.ds().len() >= n); assert(data.ds().subrange(0, n) =~= s); }
@at let digits
    let ghost t0 = val(s, nd - 1);
    proof { assert(digits@ =~= s); if di == 0 { lemma_round_cut0(s, w, rs, nd); } else { lemma_round_cutk(s, w, rs, nd, di as int); } lemma_p0(); }
    let ghost mut tgt: int = t0;
@at then 4
    proof { tgt = t0 + 1; }
@at let extra
    proof { tgt = t0 - extra; lemma_t0(); }
@at then 5
    proof { tgt = t0 - extra + pow10; }
@at let offset
    let ghost s1 = digits@; let ghost c0 = carry as int; let ghost j0 = ndigits as int;
    proof {
        if di == 0 { assert(s1 == s); } else {
            assert(s1 =~= s.update(nd - 1, s1[nd - 1]));
            lemma_lo_upd(s, nd - 1, s1[nd - 1], nd - 1, nd);
            assert((s1[nd - 1] - s[nd - 1]) * 1 == s1[nd - 1] - s[nd - 1]);
        }
        assert(val(s1, nd - 1) + c0 * p(nd - j0) == tgt) by { assert(c0 == 0 || c0 == 1); assert(0 * p(nd - j0) == 0); assert(1 * p(nd - j0) == p(nd - j0)); }
        assert(digs(s1));
    }
@at before 0
    let ghost b0 = digits@; let ghost off = offset as int;
    proof {
        let D = b0.subrange(off - 1, off + nd);
        assert forall|i: int| 0 <= i < nd implies #[trigger] D[i + 1] == s1[i] by {}
        lemma_cell0(D, s1, nd);
        assert forall|i: int| 0 <= i <= nd implies 0 <= #[trigger] D[i] < 10000 by { if i > 0 { assert(D[(i - 1) + 1] == s1[i - 1]); } }
    }
@at inv 0
    invariant -1 <= ndigits <= nd, 0 <= carry <= 1, digits@.len() == b0.len(), off == offset, 5 <= off, off + nd <= b0.len(), b0.len() <= 0x0fff_ffff, 0 <= nd <= n <= 99000,
        digs(digits@.subrange(off - 1, off + nd)), ndigits == -1 ==> carry == 0, ndigits >= 0 ==> digits@[off - 1] == 0, ndigits == -1 ==> digits@[off - 1] == 1,
        val(digits@.subrange(off - 1, off + nd), nd) + carry * p(nd - ndigits) == tgt,
        forall|q: int| 0 <= q < off - 1 ==> digits@[q] == b0[q],
    decreases ndigits + 1
@at top 0
    let ghost d0 = digits@; let ghost j = ndigits as int; let ghost D0 = digits@.subrange(off - 1, off + nd);
    proof { assert(D0[j] == d0[off - 1 + j]); }
@at bot 0
    proof {
        let D1 = digits@.subrange(off - 1, off + nd); let x = D1[j];
        assert(digits@ =~= d0.update(off - 1 + j, x));
        assert(D1 =~= D0.update(j, x));
        lemma_lo_upd(D0, j, x, nd, nd + 1); lemma_p0(); lemma_pS(nd - ndigits);
        let q = p(nd - j); let c1 = carry as int; let y = D0[j] as int;
        assert(x + 10000 * c1 == y + 1);
        assert((x - y) * q + c1 * (10000 * q) == 1 * q) by (nonlinear_arith) requires x + 10000 * c1 == y + 1;
    }
@at after 0
    let ghost fin = digits@; let ghost D = digits@.subrange(off - 1, off + nd);
    proof { assert(0 * p(nd - ndigits) == 0); assert(val(D, nd) == tgt); }
@at fi 1
    proof {
        let r = self.sd();
        if ndigits < 0 {
            assert(r =~= D);
            lemma_val_shift(r, nd, e);
        } else {
            assert(r =~= D.subrange(1, nd + 1));
            assert forall|i: int| 0 <= i < nd implies #[trigger] D[i + 1] == r[i] by {}
            assert(D[0] == 0);
            lemma_cell0(D, r, nd);
            lemma_val_shift(r, nd - 1, e);
        }
        assert(digs(r)) by { assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] r[i] < 10000 by { assert(ndigits < 0 ==> r[i] == D[i]); assert(ndigits >= 0 ==> r[i] == D[i + 1]); } }
    }

@fn var NumericVar::trunc_common
@spec
    requires old(self).st0(), -99000 <= rscale <= 200000
    ensures final(self).st0(), final(self).dscale == rscale, final(self).mag() == truncm(old(self).mag(), rscale as int),
        final(self).sign == old(self).sign || final(self).sign == 0 && final(self).mag() == 0 && final(self).ndigits == 0,
        final(self).ndigits <= old(self).ndigits, final(self).ndigits == 0 && final(self).weight == 0 || final(self).weight == old(self).weight,
        final(self).ndigits > 0 ==> (old(self).weight + 1) * 4 + rscale > 0,
@at begin
    let ghost s = self.sd(); let ghost w = self.weight as int; let ghost n = self.ndigits as int; let ghost rs = rscale as int;
    proof { lemma_val_bounds(s, w + KK); }
@at then 0
    proof { lemma_round_small(s, w, rs); }
@at fi 0
    proof { lemma_val_empty(self.sd(), self.weight + KK); }
@at let ndigits
    let ghost nd = ndigits as int; let ghost e = w + KK + 1 - nd; let ghost k = di % 4;
    proof { lemma_t0(); if nd > n || (nd == n && k == 0) { lemma_round_noop(s, w, rs); } else if k == 0 { lemma_round_cut0(s, w, rs, nd); } else { lemma_round_cutk(s, w, rs, nd, k as int); } lemma_p0(); }
@at let digits
    proof { assert(digits@ =~= s.subrange(0, nd)); }
    let ghost s0 = digits@;
@at fi 2
    let ghost s1 = digits@;
    proof {
        assert(s1 =~= s0.update(nd - 1, s1[nd - 1]));
        assert(self.sd() =~= s1);
        lemma_lo_upd(s0, nd - 1, s1[nd - 1], nd - 1, nd);
        lemma_val_congr(s, s0, nd - 1);
        assert((s1[nd - 1] - s0[nd - 1]) * 1 == s1[nd - 1] - s0[nd - 1]);
        lemma_val_shift(s1, nd - 1, e);
    }
@at fi 1
    proof {
        let r = self.sd();
        if k == 0 {
            assert(r =~= s.subrange(0, nd)); lemma_val_congr(s, r, nd - 1); lemma_val_shift(r, nd - 1, e);
        }
    }

@fn var NumericVar::ceil_common
@spec
    requires self.st(), self.norm(), sz(self, 44000), self.ndigits > 0 ==> self.mag() > 0
    ensures ret.st(), ret.dscale == 0, ret.iv() == ceil_iv(self.iv())
@at begin
    proof { lemma_val_bounds(self.sd(), self.weight + KK); lemma_ceil(self.mag(), self.iv());
        if self.ndigits == 0 { lemma_val_empty(self.sd(), self.weight + KK); } else { lemma_val_first(self.sd(), self.weight + KK); if self.weight >= 0 { lemma_pmono(KK, self.weight + KK); lemma_trunc_pos(self.mag()); } } }
@at call trunc_common
    proof { assert(result.sd() =~= self.sd()); }

@fn var NumericVar::floor_common
@spec
    requires self.st(), self.norm(), sz(self, 44000), self.ndigits > 0 ==> self.mag() > 0
    ensures ret.st(), ret.dscale == 0, ret.iv() == floor_iv(self.iv())
@at begin
    proof { lemma_val_bounds(self.sd(), self.weight + KK); lemma_ceil(self.mag(), self.iv());
        if self.ndigits == 0 { lemma_val_empty(self.sd(), self.weight + KK); } else { lemma_val_first(self.sd(), self.weight + KK); if self.weight >= 0 { lemma_pmono(KK, self.weight + KK); lemma_trunc_pos(self.mag()); } } }
@at call trunc_common
    proof { assert(result.sd() =~= self.sd()); }

@fn var NumericVar::ceil
@spec
    requires self.st(), self.norm(), sz(self, 44000), self.ndigits > 0 ==> self.mag() > 0
    ensures ret.st(), ret.dscale == 0, ret.iv() == ceil_iv(self.iv())

@fn var NumericVar::floor
@spec
    requires self.st(), self.norm(), sz(self, 44000), self.ndigits > 0 ==> self.mag() > 0
    ensures ret.st(), ret.dscale == 0, ret.iv() == floor_iv(self.iv())

@fn var NumericVar::round
@spec
    requires old(self).st0(), old(self).weight <= 98000, old(self).ndigits <= 98000
    ensures final(self).st(), final(self).dscale == imax(clamp1000(scale as int), 0), final(self).mag() == roundm(old(self).mag(), clamp1000(scale as int)),
        final(self).iv() == (if old(self).sign == 0x4000 { -final(self).mag() } else { final(self).mag() }),

@fn var NumericVar::trunc
@spec
    requires old(self).st0()
    ensures final(self).st(), final(self).dscale == imax(clamp1000(scale as int), 0), final(self).mag() == truncm(old(self).mag(), clamp1000(scale as int)),
        final(self).iv() == (if old(self).sign == 0x4000 { -final(self).mag() } else { final(self).mag() }),

@fn num Numeric::round
@spec
    requires self.can()
    ensures self.nv().nan ==> ret.nv() == nan_view(),
        !self.nv().nan ==> ret.nv().is(round_iv(self.nv().iv(), clamp1000(scale as int)), imax(clamp1000(scale as int), 0))
@panics VALUE_OVERFLOW_MSG !self.nv().nan && !fits(iabs(round_iv(self.nv().iv(), clamp1000(scale as int))), imax(clamp1000(scale as int), 0))
@at begin
    proof { lemma_can_facts(self.nv()); if !self.nv().nan { lemma_round_facts(self.nv().iv(), clamp1000(scale as int)); } }

@fn num Numeric::trunc
@spec
    requires self.can()
    ensures self.nv().nan ==> ret.nv() == nan_view(),
        !self.nv().nan ==> ret.nv().is(trunc_iv(self.nv().iv(), clamp1000(scale as int)), imax(clamp1000(scale as int), 0))
@at begin
    proof { lemma_can_facts(self.nv()); if !self.nv().nan { lemma_round_facts(self.nv().iv(), clamp1000(scale as int)); lemma_trunc_fits(self.nv(), clamp1000(scale as int)); } }

@fn num Numeric::ceil
@spec
    requires self.can()
    ensures self.nv().nan ==> ret.nv() == nan_view(), !self.nv().nan ==> ret.nv().is(ceil_iv(self.nv().iv()), 0)
@panics VALUE_OVERFLOW_MSG !self.nv().nan && !fits(iabs(ceil_iv(self.nv().iv())), 0)
@at begin
    proof { lemma_can_facts(self.nv()); if !self.nv().nan { lemma_ceil(self.nv().mag(), self.nv().iv()); } }

@fn num Numeric::floor
@spec
    requires self.can()
    ensures self.nv().nan ==> ret.nv() == nan_view(), !self.nv().nan ==> ret.nv().is(floor_iv(self.nv().iv()), 0)
@panics VALUE_OVERFLOW_MSG !self.nv().nan && !fits(iabs(floor_iv(self.nv().iv())), 0)
@at begin
    proof { lemma_can_facts(self.nv()); if !self.nv().nan { lemma_ceil(self.nv().mag(), self.nv().iv()); } }
