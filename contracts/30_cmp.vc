@fn var NumericVar::cmp_abs
@spec
    requires self.st(), other.st()
    ensures ret == sgn(self.mag() - other.mag())
@at begin
    let ghost sa = self.sd(); let ghost sb = other.sd(); let ghost wa = self.weight as int; let ghost wb = other.weight as int;
    let ghost na = self.ndigits as int; let ghost nb = other.ndigits as int;
@at inv 0
    invariant 0 <= i1 <= na, i2 == 0, var1_weight == wa - i1, var2_weight == wb, digs(sa), digs(sb), -99000 <= wa <= 99000, -99000 <= wb <= 99000, na <= 99000,
        var1_digits@ == sa, var2_digits@ == sb, var1_ndigits == sa.len(), var2_ndigits == sb.len(), na == sa.len(), nb == sb.len(),
        na - 1 - wa <= 99000, nb - 1 - wb <= 99000, self.mag() == V(sa, wa), other.mag() == V(sb, wb),
        i1 > 0 ==> var1_weight >= var2_weight,
        forall|q: int| q > wa - i1 ==> dg(sa, wa, q) == 0,
    decreases na - i1
@at return 0
    proof { assert(dg(sa, wa, wa - i1) == sa[i1 as int]); lemma_cmp_digit(sa, wa, sb, wb, wa - i1); }
@at after 0
    proof { assert forall|q: int| q > wb - i2 implies #[trigger] dg(sb, wb, q) == 0 by {} }
    let ghost e1 = i1 as int;
@at inv 1
    invariant i1 == e1, 0 <= i1 <= na, 0 <= i2 <= nb, var1_weight == wa - i1, var2_weight == wb - i2, digs(sa), digs(sb), -99000 <= wa <= 99000, -99000 <= wb <= 99000, na <= 99000, nb <= 99000,
        var1_digits@ == sa, var2_digits@ == sb, var1_ndigits == sa.len(), var2_ndigits == sb.len(), na == sa.len(), nb == sb.len(),
        na - 1 - wa <= 99000, nb - 1 - wb <= 99000, self.mag() == V(sa, wa), other.mag() == V(sb, wb),
        var1_weight <= var2_weight || i1 == na,
        i2 > 0 ==> var2_weight >= var1_weight,
        forall|q: int| q > wa - i1 ==> dg(sa, wa, q) == 0,
        forall|q: int| q > wb - i2 ==> dg(sb, wb, q) == 0,
    decreases nb - i2
@at return 1
    proof { assert(dg(sb, wb, wb - i2) == sb[i2 as int]); lemma_cmp_digit(sb, wb, sa, wa, wb - i2); }
@at inv 2
    invariant 0 <= i1 <= na, 0 <= i2 <= nb, wa - i1 == wb - i2, digs(sa), digs(sb), -99000 <= wa <= 99000, -99000 <= wb <= 99000, na <= 99000, nb <= 99000,
        var1_digits@ == sa, var2_digits@ == sb, var1_ndigits == sa.len(), var2_ndigits == sb.len(), na == sa.len(), nb == sb.len(),
        na - 1 - wa <= 99000, nb - 1 - wb <= 99000, self.mag() == V(sa, wa), other.mag() == V(sb, wb),
        forall|q: int| q > wa - i1 ==> dg(sa, wa, q) == dg(sb, wb, q),
    decreases na - i1
@at return 2
    proof { assert(dg(sa, wa, wa - i1) == sa[i1 as int]); assert(dg(sb, wb, wb - i2) == sb[i2 as int]);
        if stat > 0 { lemma_cmp_digit(sa, wa, sb, wb, wa - i1); } else { lemma_cmp_digit(sb, wb, sa, wa, wb - i2); } }
@at before 3
    proof {
        assert forall|q: int| q > wa - i1 && i1 < na implies #[trigger] dg(sa, wa, q) == dg(sb, wb, q) by {}
        assert forall|q: int| q > wb - i2 && i2 < nb implies #[trigger] dg(sa, wa, q) == dg(sb, wb, q) by {}
        assert(i1 < na ==> i2 == nb);
        assert forall|q: int| q <= wa - i1 && i1 < na implies #[trigger] dg(sb, wb, q) == 0 by {}
        assert forall|q: int| q <= wb - i2 && i2 < nb implies #[trigger] dg(sa, wa, q) == 0 by {}
        assert forall|q: int| i1 == na && i2 == nb implies #[trigger] dg(sa, wa, q) == dg(sb, wb, q) by {}
    }
@at inv 3
    invariant 0 <= i1 <= na, 0 <= i2 <= nb, digs(sa), digs(sb), -99000 <= wa <= 99000, -99000 <= wb <= 99000, na <= 99000, nb <= 99000,
        var1_digits@ == sa, var2_digits@ == sb, var1_ndigits == sa.len(), var2_ndigits == sb.len(), na == sa.len(), nb == sb.len(),
        na - 1 - wa <= 99000, nb - 1 - wb <= 99000, self.mag() == V(sa, wa), other.mag() == V(sb, wb), i1 < na ==> i2 == nb,
        i1 < na ==> forall|q: int| q > wa - i1 ==> dg(sa, wa, q) == dg(sb, wb, q),
        i1 < na ==> forall|q: int| q <= wa - i1 ==> dg(sb, wb, q) == 0,
        i2 < nb ==> forall|q: int| q <= wb - i2 ==> dg(sa, wa, q) == 0,
        i2 < nb ==> forall|q: int| q > wb - i2 ==> dg(sa, wa, q) == dg(sb, wb, q),
        i1 == na && i2 == nb ==> forall|q: int| dg(sa, wa, q) == dg(sb, wb, q),
    decreases na - i1
@at return 3
    proof { assert(dg(sa, wa, wa - i1) == sa[i1 as int]); lemma_cmp_digit0(sa, wa, sb, wb, wa - i1); }
@at bot 3
    proof { let q0 = wa - (i1 - 1); assert(dg(sa, wa, q0) == sa[i1 - 1]); assert(dg(sb, wb, q0) == 0); }
@at bot 4
    proof { let q0 = wb - (i2 - 1); assert(dg(sb, wb, q0) == sb[i2 - 1]); assert(dg(sa, wa, q0) == 0); }
@at inv 4
    invariant i1 == na, 0 <= i2 <= nb, digs(sa), digs(sb), -99000 <= wa <= 99000, -99000 <= wb <= 99000, na <= 99000, nb <= 99000,
        var2_digits@ == sb, var2_ndigits == sb.len(), na == sa.len(), nb == sb.len(),
        na - 1 - wa <= 99000, nb - 1 - wb <= 99000, self.mag() == V(sa, wa), other.mag() == V(sb, wb),
        i2 < nb ==> forall|q: int| q > wb - i2 ==> dg(sa, wa, q) == dg(sb, wb, q),
        i2 < nb ==> forall|q: int| q <= wb - i2 ==> dg(sa, wa, q) == 0,
        i2 == nb ==> forall|q: int| dg(sa, wa, q) == dg(sb, wb, q),
    decreases nb - i2
@at return 4
    proof { assert(dg(sb, wb, wb - i2) == sb[i2 as int]); lemma_cmp_digit0(sb, wb, sa, wa, wb - i2); }
@at end
    proof { lemma_V_congr(sa, wa, sb, wb); }

@fn var NumericVar::cmp_common
@spec
    requires self.st(), other.st(), self.ndigits > 0 ==> self.mag() > 0, other.ndigits > 0 ==> other.mag() > 0
    ensures ret == sgn(self.iv() - other.iv())
@at begin
    proof { lemma_val_bounds(self.sd(), self.weight + KK); lemma_val_bounds(other.sd(), other.weight + KK);
        if self.ndigits == 0 { lemma_val_empty(self.sd(), self.weight + KK); } if other.ndigits == 0 { lemma_val_empty(other.sd(), other.weight + KK); } }

@fn var NumericVar::add_common
@spec
    requires self.st(), other.st(), sz(self, 45000), sz(other, 45000)
    ensures ret.st(), ret.iv() == self.iv() + other.iv(), ret.dscale == imax(self.dscale as int, other.dscale as int), sum_sz(self, other, &ret), fnz(self) && fnz(other) ==> ret.norm()
@at begin
    proof { lemma_val_bounds(self.sd(), self.weight + KK); lemma_val_bounds(other.sd(), other.weight + KK); lemma_nz(self); lemma_nz(other); }
@at end
    proof { lemma_nz0(&ret__); }

@fn var NumericVar::sub_common
@spec
    requires self.st(), other.st(), sz(self, 45000), sz(other, 45000)
    ensures ret.st(), ret.iv() == self.iv() - other.iv(), ret.dscale == imax(self.dscale as int, other.dscale as int), sum_sz(self, other, &ret), fnz(self) && fnz(other) ==> ret.norm()
@at begin
    proof { lemma_val_bounds(self.sd(), self.weight + KK); lemma_val_bounds(other.sd(), other.weight + KK); lemma_nz(self); lemma_nz(other); }
@at end
    proof { lemma_nz0(&ret__); }
