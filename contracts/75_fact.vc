@fn var NumericVar::factorial deps=convert~NumericVar::from~From<i64>
@spec
    ensures ret is None <==> num > 32177,
        ret matches Some(v) ==> v.st() && v.dscale == 0 && v.iv() == fact(num as int) * p(KK) && fact(num as int) < p(32768) && v.ndigits <= 45000
@sub From :: from( ==> NumericVar::from(
@at begin
    proof { lemma_fact_limit(); lemma_ppos(KK); if num <= 32177 { if num >= 0 { lemma_fact_mono(num as int, 32177); } else { assert(fact(num as int) == 1); lemma_fact_mono(0, 32177); } } assert(1 * p(KK) == p(KK)); }
    let ghost q = p(KK); let ghost N = num as int;
@at let result
    proof { assert(fact(N) == N * fact(N - 1)); assert(N * q > 0) by (nonlinear_arith) requires N >= 1, q >= 1; if result.ndigits == 0 { lemma_val_empty(result.sd(), result.weight + KK); } }
    proof { lemma_fact_mono(0, N - 1); let g = fact(N - 1); assert(N * g >= N) by (nonlinear_arith) requires N >= 1, g >= 1; lemma_fact_mono(N, 32177); }
    let ghost mut f = N;
@at inv 0
    invariant lo__0 == 2, 2 <= it__0 <= num, num <= 32177, N == num, q == p(KK), q >= 1, fact(32177) < p(32768), f >= 1, f <= fact(N), fact(N) < p(32768),
        f * fact(it__0 - 1) == fact(N), result.st(), result.sign == 0, result.mag() == f * q, result.dscale == 0,
        result.ndigits > 0 ==> -KK <= result.weight <= 32767 && result.ndigits - 1 - result.weight <= 0, result.ndigits > 0,
    decreases it__0
@at let fact
    let ghost r0 = result;
    proof { lemma_fact_step(f, n as int, N); assert(n * q > 0) by (nonlinear_arith) requires n >= 1, q >= 1; if fact.ndigits == 0 { lemma_val_empty(fact.sd(), fact.weight + KK); } }
@at set result
    proof {
        f = f * n; assert(f * q > 0) by (nonlinear_arith) requires f >= 1, q >= 1;
        if result.ndigits == 0 { lemma_val_empty(result.sd(), result.weight + KK); }
        lemma_weight_of(result.weight as int, f);
    }
@at after 0
    proof { assert(crate::fact(1) == 1); assert(f * 1 == f); }

@fn num NumericBuf::factorial
@spec
    ensures ret is None <==> num > 32177, ret matches Some(b) ==> b.nv().is(fact(num as int) * p(KK), 0), num > 32177 ==> !fits(fact(num as int) * p(KK), 0)
@at begin
    proof {
        lemma_fact_limit(); if num > 32177 { lemma_fact_mono(32178, num as int); } 
        lemma_ppos(KK); lemma_padd(32768, KK); let q = p(KK); let x = p(32768); let f = fact(num as int);
        if num <= 32177 { if num >= 0 { lemma_fact_mono(0, num as int); lemma_fact_mono(num as int, 32177); } assert(f * q < x * q) by (nonlinear_arith) requires f < x, q >= 1; assert(f * q >= q) by (nonlinear_arith) requires f >= 1, q >= 1; lemma_pmono(KK - 32767, KK); lemma_pt(KK); lemma_dvd_mul(q, f); }
        else { assert(f * q >= x * q) by (nonlinear_arith) requires f >= x, q >= 1; }
    }
