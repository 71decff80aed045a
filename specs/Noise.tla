-------------------------------- MODULE Noise --------------------------------
(* Noise classes for sampling-based training: distributions, draws, sharing *)
(* and the costs that use them.  Classes are 1..S; probabilities, priors,   *)
(* exponents and logits are fixed point numbers (see Fixed).                *)
EXTENDS Fixed, FiniteSets, TLC

Total(v) == FoldLeft(LAMBDA a, x : a + x, 0, v)
Normalized(v) == LET t == Total(v) IN TLCEval([i \in DOMAIN v |-> DivPos(v[i], t)])
Power(x, damp) == IF damp = One THEN x ELSE IF damp = 50000 THEN Sqrt(x)
                  ELSE IF damp = 25000 THEN Sqrt(Sqrt(x)) ELSE One
\* Logarithm of the samples (counted from one) is uniform.
LogUniform(S) == LET d == Ln((S + 1) * One) IN
                 TLCEval([x \in 1..S |-> Div(Ln(((x + 1) * One) \div x), d)])
Probs(dist, prior, damp) ==
    LET S == Len(prior) IN
    IF dist = "uniform" \/ (dist = "unigram" /\ damp = 0) THEN [x \in 1..S |-> One \div S]
    ELSE IF dist = "log-uniform" THEN LogUniform(S)
    ELSE Normalized([x \in 1..S |-> Power(prior[x], damp)])
\* Classes of one set of draws are distinct.
Distinct(dist, damp) == dist = "unigram" /\ damp # 0

\* The probability that x is drawn after the classes d.
Next1(P, distinct, d, x) ==
    IF ~distinct THEN P[x]
    ELSE IF x \in ToSet(d) THEN 0
    ELSE LET rest == One - FoldLeft(LAMBDA a, y : a + P[y], 0, d) IN
         IF rest <= 0 THEN 0 ELSE DivPos(P[x], rest)
PairProb(P, distinct, a, b) == Mul(P[a], Next1(P, distinct, <<a>>, b))

-----------------------------------------------------------------------------
(* Sharing.  Words at positions with the same Draw index have the same K    *)
(* noise classes.  A tensor of samples has one row per distinct index.      *)
Draw(sharing, t, n) == IF sharing = "none" THEN <<t, n>> ELSE IF sharing = "seq" THEN <<t>> ELSE <<>>
Shape(sharing, T, N, K) == IF sharing = "none" THEN <<T, N, K>> ELSE IF sharing = "seq" THEN <<T, 1, K>> ELSE <<1, 1, K>>
At(sharing, s, t, n) == IF sharing = "none" THEN s[t][n] ELSE IF sharing = "seq" THEN s[t][1] ELSE s[1][1]

-----------------------------------------------------------------------------
(* Costs.  l is the logit of the target, q its noise probability; sl and sq *)
(* those of the K samples.                                                  *)
Epsilon == -1381551                                          \* ln(0.000001)
LnE(x) == IF x <= 0 THEN Epsilon ELSE Ln(x)
\* Noise-contrastive estimation: is each word data or noise?
NCE(l, q, sl, sq) ==
    -Softplus(-(l - LnE(q)))
    - FoldLeft(LAMBDA a, k : a + Softplus(sl[k] - LnE(sq[k])), 0, [k \in DOMAIN sl |-> k])
\* BlackOut: logits weighted with the inverse noise probabilities.
Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
BlackOut(l, q, sl, sq) ==
    LET a == TLCEval([k \in DOMAIN sl |-> sl[k] - LnE(sq[k])])
        t == l - LnE(q)
        top == TLCEval(Largest({t} \cup ToSet(a)))
        e == TLCEval([k \in DOMAIN a |-> Exp(a[k] - top)])
        et == Exp(t - top)
        den == TLCEval(et + Total(e))
    IN  LnE(Div(et, den)) + FoldLeft(LAMBDA x, k : x + LnE(Div(den - e[k], den)), 0, [k \in DOMAIN sl |-> k])
WordCost(kind, l, q, sl, sq) == IF kind = "nce" THEN -NCE(l, q, sl, sq) ELSE -BlackOut(l, q, sl, sq)

(* The chance of x among n draws having the expectation e (rounded): more   *)
(* than seven standard deviations are not a coincidence.                    *)
Plausible(x, e, n) ==
    LET d == FAbs(x - e)
        var == (e * (n - e)) \div n
    IN  IF d > 20000 THEN FALSE ELSE d * d <= 49 * var + 150
=============================================================================
