----------------------------- MODULE WordClasses -----------------------------
(* Clustering words into classes by exchange.                               *)
(*                                                                          *)
(* A text is known by its word counts U (word -> number) and its bigrams B, *)
(* a sequence of [l, r, n].  cls gives the class of each word.  The log     *)
(* likelihood of a bigram model over the classes is                         *)
(*   sum of X(class pair counts) + sum of X(word counts)                    *)
(*   - 2 * sum of X(class counts),        X(n) = n * ln(n), X(0) = 0.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Functions, TLC

CONSTANT X(_)

Words(cls) == DOMAIN cls
Sum(f, S) == FoldFunctionOnSet(LAMBDA a, b : a + b, 0, f, S)
Sum2(f, S) == FoldFunctionOnSet(LAMBDA a, b : a + b, 0, f, S)

\* Statistics from scratch: classes C, words W.
Stats(U, B, cls, C) ==
    LET W == DOMAIN cls
        zcc == [p \in C \X C |-> 0]
        zcw == [p \in C \X W |-> 0]
        zwc == [p \in W \X C |-> 0]
        F == FoldLeft(LAMBDA s, b :
                [cc |-> TLCEval([s.cc EXCEPT ![<<cls[b.l], cls[b.r]>>] = @ + b.n]),
                 cw |-> TLCEval([s.cw EXCEPT ![<<cls[b.l], b.r>>] = @ + b.n]),
                 wc |-> TLCEval([s.wc EXCEPT ![<<b.l, cls[b.r]>>] = @ + b.n])],
              [cc |-> zcc, cw |-> zcw, wc |-> zwc], B)
    IN  [c |-> [k \in C |-> Sum(U, {w \in W : cls[w] = k})], cc |-> F.cc, cw |-> F.cw, wc |-> F.wc]

Likelihood(U, s, C) ==
    Sum([p \in C \X C |-> X(s.cc[p])], C \X C) + Sum([w \in DOMAIN U |-> X(U[w])], DOMAIN U)
        - 2 * Sum([k \in C |-> X(s.c[k])], C)

\* Class counts and class pair counts alone, for the likelihood.
PairStats(U, B, cls, C) ==
    [c |-> [k \in C |-> Sum(U, {w \in DOMAIN cls : cls[w] = k})],
     cc |-> FoldLeft(LAMBDA s, b : TLCEval([s EXCEPT ![<<cls[b.l], cls[b.r]>>] = @ + b.n]), [p \in C \X C |-> 0], B)]
LikelihoodOf(U, B, cls, C) == Likelihood(U, PairStats(U, B, cls, C), C)

-----------------------------------------------------------------------------
(* The exchange step as the optimizers do it: the change of the likelihood  *)
(* is predicted from the statistics, which are then updated in place.       *)
Bigram(B, v, w) == LET hits == SelectSeq(B, LAMBDA b : b.l = v /\ b.r = w) IN
                   IF hits = <<>> THEN 0 ELSE hits[1].n
D(old, new) == X(new) - X(old)
Predict(U, B, cls, C, s, w, k) ==
    LET o == cls[w]
        n == U[w]
        ww == Bigram(B, w, w)
        rest == C \ {o, k}
    IN  -2 * D(s.c[o], s.c[o] - n) - 2 * D(s.c[k], s.c[k] + n)
        + Sum([x \in rest |-> D(s.cc[<<o, x>>], s.cc[<<o, x>>] - s.wc[<<w, x>>])
                            + D(s.cc[<<k, x>>], s.cc[<<k, x>>] + s.wc[<<w, x>>])
                            + D(s.cc[<<x, o>>], s.cc[<<x, o>>] - s.cw[<<x, w>>])
                            + D(s.cc[<<x, k>>], s.cc[<<x, k>>] + s.cw[<<x, w>>])], rest)
        + D(s.cc[<<o, k>>], s.cc[<<o, k>>] - s.wc[<<w, k>>] + s.cw[<<o, w>>] - ww)
        + D(s.cc[<<k, o>>], s.cc[<<k, o>>] - s.cw[<<k, w>>] + s.wc[<<w, o>>] - ww)
        + D(s.cc[<<o, o>>], s.cc[<<o, o>>] - s.wc[<<w, o>>] - s.cw[<<o, w>>] + ww)
        + D(s.cc[<<k, k>>], s.cc[<<k, k>>] + s.wc[<<w, k>>] + s.cw[<<k, w>>] + ww)

Update(U, B, cls, s, w, k) ==
    LET o == cls[w]
        inc(f, p, x) == TLCEval([f EXCEPT ![p] = @ + x])
        Right(t, b) == IF b.l # w \/ b.r = w THEN t ELSE
            [t EXCEPT !.cw = inc(inc(@, <<o, b.r>>, -b.n), <<k, b.r>>, b.n),
                      !.cc = inc(inc(@, <<o, cls[b.r]>>, -b.n), <<k, cls[b.r]>>, b.n)]
        Left(t, b) == IF b.r # w \/ b.l = w THEN t ELSE
            [t EXCEPT !.wc = inc(inc(@, <<b.l, o>>, -b.n), <<b.l, k>>, b.n),
                      !.cc = inc(inc(@, <<cls[b.l], o>>, -b.n), <<cls[b.l], k>>, b.n)]
        t1 == [s EXCEPT !.c = inc(inc(@, o, -U[w]), k, U[w])]
        t3 == FoldLeft(Left, FoldLeft(Right, t1, B), B)
        n == Bigram(B, w, w)
    IN  [t3 EXCEPT !.cc = inc(inc(@, <<o, o>>, -n), <<k, k>>, n),
                   !.cw = inc(inc(@, <<o, w>>, -n), <<k, w>>, n),
                   !.wc = inc(inc(@, <<w, o>>, -n), <<w, k>>, n)]

Movable(cls, special, w) == w \notin special /\ Cardinality({v \in DOMAIN cls : cls[v] = cls[w]}) >= 2
\* A word never joins the class of a special token.
Targets(cls, special, C, w) == {k \in C : k # cls[w] /\ \A v \in special : cls[v] # k}
=============================================================================
