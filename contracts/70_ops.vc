@each L,R=NumericBuf,NumericBuf|NumericBuf,&NumericBuf|NumericBuf,&Numeric|&NumericBuf,NumericBuf|&NumericBuf,&NumericBuf|&NumericBuf,&Numeric|&Numeric,NumericBuf|&Numeric,&NumericBuf|&Numeric,&Numeric
@fn ops {L}::add trait=Add<{R}> asimpl vtrait=VAdd group=add
@panics? VALUE_OVERFLOW_MSG !self.hv().nan && !other.hv().nan && !fits(iabs(self.hv().iv() + other.hv().iv()), imax(self.hv().dscale, other.hv().dscale))
@end
@each R=NumericBuf|&NumericBuf|&Numeric
@fn ops NumericBuf::add_assign trait=AddAssign<{R}> asimpl vtrait=VAddAssign group=adda
@end

@each L,R=NumericBuf,NumericBuf|NumericBuf,&NumericBuf|NumericBuf,&Numeric|&NumericBuf,NumericBuf|&NumericBuf,&NumericBuf|&NumericBuf,&Numeric|&Numeric,NumericBuf|&Numeric,&NumericBuf|&Numeric,&Numeric
@fn ops {L}::sub trait=Sub<{R}> asimpl vtrait=VSub group=sub
@panics? VALUE_OVERFLOW_MSG !self.hv().nan && !other.hv().nan && !fits(iabs(self.hv().iv() - other.hv().iv()), imax(self.hv().dscale, other.hv().dscale))
@end
@each R=NumericBuf|&NumericBuf|&Numeric
@fn ops NumericBuf::sub_assign trait=SubAssign<{R}> asimpl vtrait=VSubAssign group=suba
@end

@each L,R=NumericBuf,NumericBuf|NumericBuf,&NumericBuf|NumericBuf,&Numeric|&NumericBuf,NumericBuf|&NumericBuf,&NumericBuf|&NumericBuf,&Numeric|&Numeric,NumericBuf|&Numeric,&NumericBuf|&Numeric,&Numeric
@fn ops {L}::mul trait=Mul<{R}> asimpl vtrait=VMul group=mul
@panics? VALUE_OVERFLOW_MSG !self.hv().nan && !other.hv().nan && !fits(iabs(mul_iv(self.hv().iv(), other.hv().iv())), self.hv().dscale + other.hv().dscale)
@end
@each R=NumericBuf|&NumericBuf|&Numeric
@fn ops NumericBuf::mul_assign trait=MulAssign<{R}> asimpl vtrait=VMulAssign group=mula
@end

@each L,R=NumericBuf,NumericBuf|NumericBuf,&NumericBuf|NumericBuf,&Numeric|&NumericBuf,NumericBuf|&NumericBuf,&NumericBuf|&NumericBuf,&Numeric|&Numeric,NumericBuf|&Numeric,&NumericBuf|&Numeric,&Numeric
@fn ops {L}::div trait=Div<{R}> asimpl vtrait=VDiv group=div
@panics? VALUE_OVERFLOW_MSG !self.hv().nan && !other.hv().nan && other.hv().mag() != 0 && !fits(iabs(rquot(self.hv().iv(), other.hv().iv(), sc(self.hv(), other.hv()))), sc(self.hv(), other.hv()))
@panics? DIVIDE_BY_ZERO_MSG !self.hv().nan && !other.hv().nan && other.hv().mag() == 0
@end
@each R=NumericBuf|&NumericBuf|&Numeric
@fn ops NumericBuf::div_assign trait=DivAssign<{R}> asimpl vtrait=VDivAssign group=diva
@end

@each L,R=NumericBuf,NumericBuf|NumericBuf,&NumericBuf|NumericBuf,&Numeric|&NumericBuf,NumericBuf|&NumericBuf,&NumericBuf|&NumericBuf,&Numeric|&Numeric,NumericBuf|&Numeric,&NumericBuf|&Numeric,&Numeric
@fn ops {L}::rem trait=Rem<{R}> asimpl vtrait=VRem group=rem
@panics? VALUE_OVERFLOW_MSG false
@panics? DIVIDE_BY_ZERO_MSG !self.hv().nan && !other.hv().nan && other.hv().mag() == 0
@end
@each R=NumericBuf|&NumericBuf|&Numeric
@fn ops NumericBuf::rem_assign trait=RemAssign<{R}> asimpl vtrait=VRemAssign group=rema
@end

@each L=NumericBuf|&NumericBuf|&Numeric
@fn ops {L}::neg trait=Neg asimpl vtrait=VNeg group=neg
@end

@each L,R=NumericBuf,NumericBuf|Numeric,Numeric|NumericBuf,Numeric|NumericBuf,&Numeric|Numeric,NumericBuf|&Numeric,NumericBuf|&Numeric,Numeric|Numeric,&Numeric|&NumericBuf,NumericBuf|NumericBuf,&NumericBuf
@fn ops {L}::eq trait=PartialEq<{R}> asimpl vtrait=VPartialEq group=eq
@fn ops {L}::partial_cmp trait=PartialOrd<{R}> asimpl vtrait=VPartialOrd group=pcmp
@end
@each L=NumericBuf|Numeric
@fn ops {L}::cmp trait=Ord asimpl vtrait=VOrd group=ord
@end

@fn num Numeric::overflowing_div
@spec
    requires self.can(), other.can()
    ensures self.nv().nan || other.nv().nan ==> ret.0.nv() == nan_view() && !ret.1,
        !self.nv().nan && !other.nv().nan ==> other.nv().mag() != 0 && ({
            let (a, b) = (self.nv(), other.nv()); let v = rquot(a.iv(), b.iv(), sc(a, b));
            &&& ret.1 <==> !fits(iabs(v), sc(a, b))
            &&& !ret.1 ==> ret.0.nv().is(v, sc(a, b))
        })
@panics DIVIDE_BY_ZERO_MSG !self.nv().nan && !other.nv().nan && other.nv().mag() == 0
@at begin
    proof {
        let (a, b) = (self.nv(), other.nv()); lemma_can_facts(a); lemma_can_facts(b); let ds = sc(a, b);
        if !a.nan && !b.nan && b.mag() > 0 { lemma_quot_scale(a.mag(), b.mag(), ds); lemma_quot_pos(a.mag(), b.mag(), ds); if a.mag() > 0 { lemma_div_sig(a.digits, a.weight, a.dscale, b.digits, b.weight, b.dscale); } else { lemma_quot_zero(b.mag(), ds); } }
    }

@fn num Numeric::overflowing_rem
@spec
    requires self.can(), other.can()
    ensures !ret.1, self.nv().nan || other.nv().nan ==> ret.0.nv() == nan_view(),
        !self.nv().nan && !other.nv().nan ==> other.nv().mag() != 0 && ({
            let (a, b) = (self.nv(), other.nv()); let v = remv(a.iv(), b.iv());
            ret.0.nv().is(v, imax(a.dscale, b.dscale)) && fits(iabs(v), imax(a.dscale, b.dscale))
        })
@panics DIVIDE_BY_ZERO_MSG !self.nv().nan && !other.nv().nan && other.nv().mag() == 0
@at begin
    proof {
        let (a, b) = (self.nv(), other.nv()); lemma_can_facts(a); lemma_can_facts(b);
        if !a.nan && !b.nan && b.mag() > 0 { lemma_rem_fits(a, b); lemma_remv(a.iv(), b.iv()); }
    }
