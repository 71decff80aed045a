------------------------------ MODULE TrainStep ------------------------------
(* One update of the network parameters for a mini-batch.                   *)
(*                                                                          *)
(* A mini-batch is a sequence of sentences.  Sentence s has, for each word  *)
(* predicted, [f: file, u: is it excluded] and further (padding) positions  *)
(* that are masked out; G[i] is the gradient of the cost of sentence i      *)
(* alone, summed over its words that are predicted and not excluded.        *)
(* Numbers are fixed point (see Fixed), vectors are sequences.              *)
EXTENDS Fixed, FiniteSets, TLC

VAdd(a, b) == TLCEval([i \in DOMAIN a |-> a[i] + b[i]])
Zero(n) == [i \in 1..n |-> 0]

-----------------------------------------------------------------------------
\* Positions: [m: 1 if in the mask, f, u].
Predicted(b) == FlattenSeq([s \in DOMAIN b |-> SelectSeq(b[s], LAMBDA p : p.m = 1 /\ ~p.u)])
NumWords(b) == Len(Predicted(b))
SumWeights(b, w) == FoldLeft(LAMBDA a, p : a + w[p.f], 0, Predicted(b))
\* The mean weight of the words that are predicted.
MeanWeight(b, w) == IF NumWords(b) = 0 THEN One ELSE SumWeights(b, w) \div NumWords(b)
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* Gradient of the mean cost, with regularization.
MeanGradient(b, G, p, l1, l2) ==
    LET n == NumWords(b)
        total == FoldLeft(VAdd, Zero(Len(p)), G)
    IN  TLCEval([i \in DOMAIN p |->
            (IF n = 0 THEN 0 ELSE Sgn(total[i]) * (FAbs(total[i]) \div n))
            + l1 * Sgn(p[i]) + 2 * Mul(l2, p[i])])

-----------------------------------------------------------------------------
(* Optimization methods.  s1, s2 are vectors of the optimizer, t counts     *)
(* updates.  o: options lr, eps, maxnorm, gamma, gammasq, mom.              *)
Slots0(method, n) ==
    [s1 |-> [i \in 1..n |-> IF method \in {"rmsprop-sgd", "rmsprop-nesterov"} THEN One ELSE 0],
     s2 |-> Zero(n), t |-> 0, b1 |-> One, b2 |-> One]
\* Decaying mean.
Mean(old, x, rate) == TLCEval([i \in DOMAIN old |-> Mul(rate, old[i]) + Mul(One - rate, x[i])])
Squares(v) == TLCEval([i \in DOMAIN v |-> Mul(v[i], v[i])])
Norm(v) == Sqrt(FoldLeft(LAMBDA a, x : a + Mul(x, x), 0, v))
Normalize(v, o) ==
    LET n == TLCEval(Norm(v))
        factor == TLCEval(DivPos(IF n < o.maxnorm THEN n ELSE o.maxnorm, o.eps + n))
    IN  TLCEval([i \in DOMAIN v |-> Mul(v[i], factor)])
Neg(v) == [i \in DOMAIN v |-> -v[i]]
Over(v, d) == TLCEval([i \in DOMAIN v |-> Div(v[i], d[i])])
Roots(v, eps) == TLCEval([i \in DOMAIN v |-> Sqrt(v[i] + eps)])

\* Slots after the gradient g, and the direction of the step.
Direction(method, s, g, o) ==
    CASE method \in {"sgd", "nesterov"} -> [s |-> s, d |-> Neg(g)]
      [] method = "adagrad" ->
           LET ss == VAdd(s.s1, Squares(g)) IN [s |-> [s EXCEPT !.s1 = ss], d |-> Neg(Over(g, Roots(ss, o.eps)))]
      [] method \in {"rmsprop-sgd", "rmsprop-nesterov"} ->
           LET ms == Mean(s.s1, Squares(g), o.gamma) IN
           [s |-> [s EXCEPT !.s1 = ms], d |-> Neg(Over(g, Roots(ms, o.eps)))]
      [] method = "adadelta" ->
           LET ms == Mean(s.s1, Squares(g), o.gamma)
               rd == Roots(s.s2, o.eps)
               rg == Roots(ms, o.eps)
           IN  [s |-> [s EXCEPT !.s1 = ms], d |-> TLCEval([i \in DOMAIN g |-> Div(Mul(-g[i], rd[i]), rg[i])])]
      [] method = "adam" ->
           LET m == Mean(s.s1, g, o.gamma)
               ms == Mean(s.s2, Squares(g), o.gammasq)
           IN  [s |-> [s EXCEPT !.s1 = m, !.s2 = ms],
                d |-> TLCEval([i \in DOMAIN g |-> Div(-m[i], Sqrt(ms[i]) + o.eps)])]

\* The step: alpha is the learning rate scaled by the weights.
Step(method, p, s, g, o, alpha) ==
    LET r == Direction(method, s, g, o)
        d == Normalize(r.d, o)
    IN  CASE method \in {"nesterov", "rmsprop-nesterov"} ->
               LET vel == IF method = "nesterov" THEN s.s1 ELSE s.s2
                   v == TLCEval([i \in DOMAIN p |-> Mul(o.mom, vel[i]) + Mul(alpha, d[i])])
               IN  [s |-> IF method = "nesterov" THEN [r.s EXCEPT !.s1 = v] ELSE [r.s EXCEPT !.s2 = v],
                    p |-> TLCEval([i \in DOMAIN p |-> p[i] + Mul(o.mom, v[i]) + Mul(alpha, d[i])])]
          [] method = "adadelta" ->
               [s |-> [r.s EXCEPT !.s2 = Mean(s.s2, Squares(d), o.gamma)],
                p |-> TLCEval([i \in DOMAIN p |-> p[i] + Mul(alpha, d[i])])]
          [] method = "adam" ->
               LET b1 == Mul(s.b1, o.gamma)
                   b2 == Mul(s.b2, o.gammasq)
                   a == Div(Mul(alpha, Sqrt(One - b2)), One - b1)
               IN  [s |-> [r.s EXCEPT !.t = @ + 1, !.b1 = b1, !.b2 = b2],
                    p |-> TLCEval([i \in DOMAIN p |-> p[i] + Mul(a, d[i])])]
          [] OTHER -> [s |-> r.s, p |-> TLCEval([i \in DOMAIN p |-> p[i] + Mul(alpha, d[i])])]

Update(method, p, s, b, G, w, o) ==
    Step(method, p, s, MeanGradient(b, G, p, o.l1, o.l2), o, Mul(o.lr, MeanWeight(b, w)))
=============================================================================
