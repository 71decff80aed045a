----------------------------- MODULE TrainStepMC -----------------------------
(* All small mini-batches: the positions of each sentence are chosen one    *)
(* after another; the gradient of a word depends on the word, the network   *)
(* has two parameters.                                                      *)
EXTENDS TrainStep
CONSTANTS MaxSentences, MaxLen, MaxUpdates, Which

Methods == {"sgd", "nesterov", "adagrad", "adadelta", "rmsprop-sgd", "rmsprop-nesterov", "adam"}
MomentumFree == Methods \ {"nesterov", "rmsprop-nesterov"}
Words == 1..3                      \* 3 is the excluded word
Weights == <<One, 25000>>
NoWeights == <<0, 0>>
Opt == [lr |-> 50000, eps |-> 1000, maxnorm |-> 80000, gamma |-> 90000, gammasq |-> 95000, mom |-> 80000, l1 |-> 0, l2 |-> 0]
Off == [Opt EXCEPT !.lr = 0]
GradOf(w) == IF w = 1 THEN <<120000, -30000>> ELSE IF w = 2 THEN <<-20000, 70000>> ELSE <<900000, 900000>>

VARIABLES raw, method, p, s, n
vars == <<raw, method, p, s, n>>
\* A position: word, mask, file.  Padding only follows the words.
Pos == [w : Words, m : {0, 1}, f : {1, 2}]
Batch(r) == [i \in DOMAIN r |-> [j \in DOMAIN r[i] |-> [m |-> r[i][j].m, f |-> r[i][j].f, u |-> r[i][j].w = 3]]]
Grads(r) == [i \in DOMAIN r |-> FoldLeft(VAdd, <<0, 0>>,
                [j \in DOMAIN r[i] |-> IF r[i][j].m = 1 /\ r[i][j].w # 3 THEN GradOf(r[i][j].w) ELSE <<0, 0>>])]
Init == raw = << <<>> >> /\ method \in Which /\ p = <<10000, -20000>> /\ s = Slots0(method, 2) /\ n = 0
Open(r) == \A i, j \in DOMAIN r : Len(r[i]) <= MaxLen
AddWord == /\ n = 0 /\ Len(Last(raw)) < MaxLen
           /\ \E x \in Pos : /\ IF Last(raw) = <<>> THEN TRUE ELSE (x.m = 1 => Last(Last(raw)).m = 1)
                             /\ (x.m = 0 => x.f = 1)
                             /\ raw' = [raw EXCEPT ![Len(raw)] = Append(@, x)]
           /\ UNCHANGED <<method, p, s, n>>
NextSentence == /\ n = 0 /\ Len(raw) < MaxSentences /\ raw' = Append(raw, <<>>) /\ UNCHANGED <<method, p, s, n>>
Train == /\ n < MaxUpdates
         /\ \E r \in {Update(method, p, s, Batch(raw), Grads(raw), Weights, Opt)} : p' = r.p /\ s' = r.s
         /\ n' = n + 1 /\ UNCHANGED <<raw, method>>
Next == AddWord \/ NextSentence \/ Train
Spec == Init /\ [][Next]_vars

U(r, w, o) == Update(method, p, s, Batch(r), Grads(r), w, o)
NearV(a, b, tol) == \A i \in DOMAIN a : FAbs(a[i] - b[i]) <= tol
Repad(r) == [i \in DOMAIN r |-> [j \in DOMAIN r[i] |-> IF r[i][j].m = 0 THEN [r[i][j] EXCEPT !.w = 4 - @, !.f = 2] ELSE r[i][j]]]
Strip(r) == [i \in DOMAIN r |-> SelectSeq(r[i], LAMBDA x : x.m = 1)]
PaddingInvisible == /\ U(Repad(raw), Weights, Opt) = U(raw, Weights, Opt)
                    /\ U(Strip(raw), Weights, Opt) = U(raw, Weights, Opt)
OrderInvisible == U(Reverse(raw), Weights, Opt) = U(raw, Weights, Opt)
ExcludedInvisible == LET r == [i \in DOMAIN raw |-> SelectSeq(raw[i], LAMBDA x : x.w # 3)] IN
                     U(r, Weights, Opt).p = U(raw, Weights, Opt).p
NoRateNoChange == method \in MomentumFree => U(raw, Weights, Off).p = p
NoWeightNoChange == (method \in MomentumFree /\ NumWords(Batch(raw)) > 0) => U(raw, NoWeights, Opt).p = p
StepNorm == method = "sgd" =>
    LET q == U(raw, Weights, Opt).p
        a == Mul(Opt.lr, MeanWeight(Batch(raw), Weights))
    IN  Norm([i \in 1..2 |-> q[i] - p[i]]) <= Mul(a, Opt.maxnorm) + 30
WeightsScale == method \in MomentumFree /\ NumWords(Batch(raw)) > 0 =>
    LET full == U(raw, <<One, One>>, Opt).p
        q == U(raw, Weights, Opt).p
        w == MeanWeight(Batch(raw), Weights)
    IN  \A i \in 1..2 : FAbs((q[i] - p[i]) - Mul(w, full[i] - p[i])) <= 30
=============================================================================
