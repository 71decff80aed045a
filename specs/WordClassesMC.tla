--------------------------- MODULE WordClassesMC ---------------------------
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Functions, TLC
CONSTANTS NWords, NClasses, MaxBigrams, MaxN
\* 100 * n * ln(n), n = 0, 1, ...
Table == <<0, 0, 139, 330, 555, 805, 1075, 1362, 1664, 1978, 2303, 2638, 2982, 3334, 3695, 4062, 4436, 4816, 5203, 5594, 5991,
           6394, 6800, 7212, 7627, 8047>>
X0(n) == Table[n + 1]

VARIABLES B, cls, s, ll, phase
vars == <<B, cls, s, ll, phase>>
W == 1..(NWords + 1)                     \* the last is a special token
Special == {NWords + 1}
C == 1..(NClasses + 1)
M == INSTANCE WordClasses WITH X <- X0
U == [w \in W |-> FoldLeft(LAMBDA a, b : a + (IF b.l = w THEN b.n ELSE 0), 0, B)]
Z == <<>>

Init == /\ B = <<>> /\ phase = "text" /\ s = Z /\ ll = 0
        /\ cls \in {f \in [W -> C] : f[NWords + 1] = NClasses + 1 /\ \A w \in 1..NWords : f[w] # NClasses + 1}
        /\ \A k \in 1..NClasses : \E w \in W : cls[w] = k
AddBigram ==
    /\ phase = "text" /\ Len(B) < MaxBigrams
    /\ \E l, r \in W, n \in 1..MaxN :
         /\ IF B = <<>> THEN TRUE ELSE (l > Last(B).l \/ (l = Last(B).l /\ r > Last(B).r))
         /\ B' = Append(B, [l |-> l, r |-> r, n |-> n])
    /\ UNCHANGED <<cls, s, ll, phase>>
Begin == /\ phase = "text" /\ B # <<>> /\ phase' = "opt"
         /\ s' = M!Stats(U, B, cls, C)
         /\ ll' = M!Likelihood(U, s', C) /\ UNCHANGED <<B, cls>>
Move == /\ phase = "opt"
        /\ \E w \in {v \in W : M!Movable(cls, Special, v)} :
           \E k \in M!Targets(cls, Special, C, w) :
           \E gain \in {M!Predict(U, B, cls, C, s, w, k)} :
             /\ gain > 0
             /\ \A j \in M!Targets(cls, Special, C, w) : M!Predict(U, B, cls, C, s, w, j) <= gain
             /\ ll' = ll + gain
             /\ s' = M!Update(U, B, cls, s, w, k)
             /\ cls' = [cls EXCEPT ![w] = k]
        /\ UNCHANGED <<B, phase>>
Next == AddBigram \/ Begin \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Move)

Consistent == phase = "opt" => s = M!Stats(U, B, cls, C)
NoEmptyClass == \A k \in C : \E w \in W : cls[w] = k
SpecialAlone == \A w \in Special : \A v \in W : cls[v] = cls[w] => v = w
PredictedRight == phase = "opt" => ll = M!LikelihoodOf(U, B, cls, C)
Never == [][phase = "opt" => ll' > ll]_vars
\* No move is better than zero in the end.
Terminates == <>[](phase = "text" \/ ~ENABLED Move)
=============================================================================
