------------------------------- MODULE NoiseMC -------------------------------
(* All small priors and distributions; noise classes are drawn one after    *)
(* another.  The costs are checked for all small logits.                    *)
EXTENDS Noise
CONSTANTS Classes, MaxCount, MaxDraws

Steps == {-100000, 0, 60000}
VARIABLES prior, dist, damp, drawn
vars == <<prior, dist, damp, drawn>>
S == Len(prior)
P == Probs(dist, prior, damp)
D == Distinct(dist, damp)

Init == prior = <<>> /\ drawn = <<>> /\ dist \in {"uniform", "log-uniform", "unigram"}
        /\ damp \in {0, 25000, 50000, One} /\ (dist # "unigram" => damp = 0)
AddClass == /\ S < Classes /\ drawn = <<>>
            /\ \E n \in 0..MaxCount : prior' = Append(prior, n * 10000)
            /\ UNCHANGED <<dist, damp, drawn>>
Usable == S > 1 /\ \E i \in 1..S : prior[i] > 0
DrawClass == /\ Usable /\ Len(drawn) < MaxDraws
             /\ \E p \in {P} : \E x \in 1..S : /\ Next1(p, D, drawn, x) > 0
                                               /\ drawn' = Append(drawn, x)
             /\ UNCHANGED <<prior, dist, damp>>
Next == AddClass \/ DrawClass
Spec == Init /\ [][Next]_vars

SumsToOne == Usable => FAbs(Total(P) - One) <= 2 * S
Support == Usable => \A x \in 1..S : (P[x] > 0) = (dist = "unigram" /\ damp # 0 => prior[x] > 0)
NoRepeats == D => Cardinality(ToSet(drawn)) = Len(drawn)
DrawnPossible == Usable => \A i \in DOMAIN drawn : P[drawn[i]] > 0
\* Something can be drawn as long as there are classes, and it is a distribution.
NextSumsToOne == (Usable /\ (D => \E x \in 1..S : P[x] > 0 /\ x \notin ToSet(drawn))) =>
    LET t == Total([x \in 1..S |-> Next1(P, D, drawn, x)]) IN
    \* close to the end the rounding errors of the remaining mass show
    FAbs(t - One) <= 2 * S + (IF D /\ drawn # <<>> THEN DivPos(4 * S, LET r == One - FoldLeft(LAMBDA a, y : a + P[y], 0, drawn) IN IF r <= 0 THEN 1 ELSE r) ELSE 0)
\* Larger counts are never less probable; dampening flattens.
Ordered == (Usable /\ dist = "unigram") =>
    \A x, y \in 1..S : prior[x] <= prior[y] => P[x] <= P[y] + 1
Flatter == (Usable /\ dist = "unigram" /\ damp # 0) =>
    \A x \in 1..S : (\A y \in 1..S : prior[y] <= prior[x]) => P[x] <= Probs(dist, prior, One)[x] + 2

\* Costs with the draws as samples, where logits depend on the class.
Usual == Usable /\ Len(drawn) = MaxDraws
CostFor(kind, l, shift) ==
    WordCost(kind, l + shift, P[1], [k \in DOMAIN drawn |-> (IF drawn[k] = 1 THEN 40000 ELSE -20000) + shift], [k \in DOMAIN drawn |-> P[drawn[k]]])
MoreLikelyCostsLess == Usual => \A kind \in {"nce", "blackout"} :
    (kind = "nce" \/ 1 \notin ToSet(drawn)) =>
        CostFor(kind, 60000, 0) <= CostFor(kind, 0, 0) + 200 /\ CostFor(kind, 0, 0) <= CostFor(kind, -100000, 0) + 200
NotNegative == Usual => \A kind \in {"nce", "blackout"} : \A l \in Steps : CostFor(kind, l, 0) >= -10
\* BlackOut normalizes, noise-contrastive estimation does not.
ShiftInvariant == Usual => \A l \in Steps : FAbs(CostFor("blackout", l, 50000) - CostFor("blackout", l, 0)) <= 20
ASSUME \A sharing \in {"none", "seq", "batch"} : \A T, N \in 1..3 :
    Cardinality({Draw(sharing, t, n) : t \in 1..T, n \in 1..N}) = Shape(sharing, T, N, 1)[1] * Shape(sharing, T, N, 1)[2]
=============================================================================
