@fn num Numeric::hash
@spec
    requires self.can()
    ensures final(state).writes() == old(state).writes() + hashw(self.nv()), hash_coherent(self.nv(), hashw(self.nv()))
@at begin
    let ghost w0 = state.writes(); let ghost v = self.nv(); let ghost s = v.digits; let ghost n = s.len() as int;
    proof { lemma_hash_coherent(v); assert(w0 + Seq::<HW>::empty() =~= w0); }
@at let digits
    proof { assert(digits@ == s); }
@at inv 0
    invariant_except_break start_offset == it__0,
    invariant self.can(), v == self.nv(), s == v.digits, n == s.len(), n <= 40000, !v.nan, digits@ == s, hi__0 == n, 0 <= it__0 <= n, -32767 <= v.weight <= 32767,
        0 <= start_offset <= n, weight == v.weight - start_offset, n > 0 ==> start_offset == 0, n > 0 ==> s[0] != 0, state.writes() == w0,
    ensures start_offset == 0
    decreases n - it__0
@at return 1
    proof { assert(n == 0); assert(state.writes() =~= w0 + hashw(v)); }
@at inv 1
    invariant_except_break end_offset + it__1 == n,
    invariant self.can(), v == self.nv(), s == v.digits, n == s.len(), n <= 40000, !v.nan, digits@ == s, 0 <= it__1 <= n, n > 0, s[n - 1] != 0, end_offset == 0, state.writes() == w0,
    ensures end_offset == 0
    decreases it__1
@at end
    proof { assert(s.subrange(0, n) =~= s); assert(state.writes() =~= w0 + hashw(v)); }

@each L=NumericBuf|Numeric
@fn num {L}::hash trait=Hash asimpl vtrait=VHash group=hash
@end
