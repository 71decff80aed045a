------------------------------ MODULE NoiseTrace -----------------------------
(* Validates recorded noise samples and costs.  A case has dist, prior (a   *)
(* distribution), damp, sharing.  Classes count from one.                   *)
(*   probs    the probability the distribution reports for each class       *)
(*   draws    n sets of k draws: some of them, how often each class was the *)
(*            first of a set, how often each pair was the first two, and    *)
(*            the first of a set and of the set after it                    *)
(*   noise    the samples of a mini-batch of T time steps and N sentences,  *)
(*            with their logits, the logits of targets and (lp) log         *)
(*            probabilities of all the classes that a network gives         *)
(*   spread   how often a pair of classes was drawn at two positions, x     *)
(*   cost     a mini-batch's logits, samples, which words count, its cost   *)
EXTENDS Noise, Json

VARIABLES c, l, st
Cases == JsonDeserialize("cases.json")
Case == Cases[c]
Ev == Case.ev[l]
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)
TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ st = "ok"

S == Len(Case.prior)
D == Distinct(Case.dist, Case.damp)
Near(a, b, tol) == FAbs(a - b) <= tol
Expected(n, p) == (n * p) \div One

TProbs ==
    /\ Ev.a = "probs"
    /\ \E P \in {Probs(Case.dist, Case.prior, Case.damp)} :
         st' = First(<<
           <<"number-of-probabilities", Len(Ev.probs) = S>>,
           <<"sum", Near(Total(Ev.probs), One, S)>>,
           <<"probabilities", Len(Ev.probs) = S => \A x \in 1..S : Near(Ev.probs[x], P[x], 40)>> >>)
    /\ Report(st')

TDraws ==
    /\ Ev.a = "draws"
    /\ \E P \in {Probs(Case.dist, Case.prior, Case.damp)} :
         st' = First(<<
           <<"range", \A i \in DOMAIN Ev.sets : Len(Ev.sets[i]) = Ev.k /\ \A j \in DOMAIN Ev.sets[i] : Ev.sets[i][j] \in 1..S>>,
           <<"all-in-range", Total(Ev.first) = Ev.n>>,
           <<"repeats", D => Ev.repeats = 0>>,
           <<"impossible-class", \A x \in 1..S : P[x] = 0 => Ev.ever[x] = 0>>,
           <<"frequencies", \A x \in 1..S : Plausible(Ev.first[x], Expected(Ev.n, P[x]), Ev.n)>>,
           <<"pairs", Ev.k > 1 => \A x, y \in 1..S :
                  Plausible(Ev.pair[x][y], Expected(Ev.n, PairProb(P, D, x, y)), Ev.n)>>,
           <<"sets-depend", \A x, y \in 1..S :
                  Plausible(Ev.after[x][y], Expected(Ev.n \div 2, Mul(P[x], P[y])), Ev.n \div 2)>> >>)
    /\ Report(st')

\* The difference of two logits is that of the log probabilities.
Logit(lp, logit, x, target, tl) == Near(logit - tl, lp[x] - lp[target], 60)
TNoise ==
    /\ Ev.a = "noise"
    /\ st' = First(<<
         <<"shape", Ev.shape = Shape(Case.sharing, Ev.T, Ev.N, Ev.K)>>,
         <<"sample-range", \A t \in DOMAIN Ev.s : \A n \in DOMAIN Ev.s[t] : \A k \in DOMAIN Ev.s[t][n] : Ev.s[t][n][k] \in 1..S>>,
         <<"sample-repeats", D => \A t \in DOMAIN Ev.s : \A n \in DOMAIN Ev.s[t] : Cardinality(ToSet(Ev.s[t][n])) = Ev.K>>,
         <<"logits", Ev.shape = Shape(Case.sharing, Ev.T, Ev.N, Ev.K) => \A t \in 1..Ev.T : \A n \in 1..Ev.N : \A k \in 1..Ev.K :
               Logit(Ev.lp[t][n], Ev.sl[t][n][k], At(Case.sharing, Ev.s, t, n)[k], Ev.target[t][n], Ev.tl[t][n])>>,
         <<"bias", Ev.bias # <<>> => \A t \in 1..Ev.T : \A n \in 1..Ev.N : Near(Ev.tl[t][n], Ev.bias[Ev.target[t][n]], 3)>> >>)
    /\ Report(st')

Same(p, q) == Draw(Case.sharing, p[1], p[2]) = Draw(Case.sharing, q[1], q[2])
TSpread ==
    /\ Ev.a = "spread"
    /\ \E P \in {Probs(Case.dist, Case.prior, Case.damp)} :
         st' = First(<<
           <<"shared", \A x, y \in 1..S :
                 IF Same(Ev.p, Ev.q)
                 THEN IF x = y THEN Plausible(Ev.x[x][x], Expected(Ev.n, P[x]), Ev.n) ELSE Ev.x[x][y] = 0
                 ELSE Plausible(Ev.x[x][y], Expected(Ev.n, Mul(P[x], P[y])), Ev.n)>> >>)
    /\ Report(st')

TCost ==
    /\ Ev.a = "cost"
    /\ \E P \in {Probs(Case.dist, Case.prior, Case.damp)} :
       LET words == {<<t, n>> : t \in 1..Ev.T, n \in 1..Ev.N}
           counted == {w \in words : Ev.counts[w[1]][w[2]] = 1}
           q(x) == P[x]
           cost(w) == LET s == At(Case.sharing, Ev.s, w[1], w[2]) IN
                      WordCost(Ev.kind, Ev.tl[w[1]][w[2]], q(Ev.target[w[1]][w[2]]), Ev.sl[w[1]][w[2]], [k \in DOMAIN s |-> q(s[k])])
           order == SetToSeq(counted)
           total == Total([i \in DOMAIN order |-> cost(order[i])])
       IN  st' = First(<<
             <<"number-of-words", Ev.num = Cardinality(counted)>>,
             <<"cost", IF counted = {} THEN Ev.cost = 0 ELSE Near(Ev.cost, total \div Cardinality(counted), Ev.tol)>> >>)
    /\ Report(st')

TOther == /\ Ev.a \notin {"probs", "draws", "noise", "spread", "cost"} /\ st' = "exception" /\ Report(st')
TraceNext == st = "ok" /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c
             /\ (TProbs \/ TDraws \/ TNoise \/ TSpread \/ TCost \/ TOther)
=============================================================================
