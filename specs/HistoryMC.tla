------------------------------ MODULE HistoryMC ------------------------------
(* Sentences in mini-batches of any composition and padding, through a      *)
(* forward recurrent layer, a backward one and a convolution, and words fed *)
(* one by one to any combination of hypotheses whose states are combined.   *)
EXTENDS History

CONSTANTS Words, MaxLen, MaxSeqs, WindowSize, MaxHyps

VARIABLES batch, garbage, t, fwd, bt, bwd, outF, outB, outW, hyps, made

vars == <<batch, garbage, t, fwd, bt, bwd, outF, outB, outW, hyps, made>>

Sentences == UNION {[1..n -> Words] : n \in 1..MaxLen}
T == IF batch = <<>> THEN 0 ELSE CHOOSE m \in 1..MaxLen :
        /\ \E i \in DOMAIN batch : Len(batch[i]) = m
        /\ \A i \in DOMAIN batch : Len(batch[i]) <= m
None == <<>>

Init == /\ batch \in UNION {[1..n -> Sentences] : n \in 0..MaxSeqs}
        /\ garbage \in Words
        /\ t = 1 /\ fwd = [i \in DOMAIN batch |-> None]
        /\ bt = T /\ bwd = [i \in DOMAIN batch |-> None]
        /\ outF = <<>> /\ outB = <<>> /\ outW = <<>>
        /\ hyps = << [h |-> None, st |-> None] >> /\ made = 0

\* One time step of the mini-batch, all the sequences in parallel.
Forward == /\ t <= T
           /\ fwd' = [i \in DOMAIN batch |-> RecStep(fwd[i], Active(batch[i], t), Cell(batch[i], t, garbage))]
           /\ outF' = Append(outF, fwd')
           /\ outW' = Append(outW, [i \in DOMAIN batch |-> Window(batch[i], t, WindowSize, garbage)])
           /\ t' = t + 1 /\ UNCHANGED <<batch, garbage, bt, bwd, outB, hyps, made>>
Backward == /\ bt >= 1 /\ T > 0
            /\ bwd' = [i \in DOMAIN batch |-> RecStep(bwd[i], Active(batch[i], bt),
                                                       BackInput(batch[i], bt, T, garbage))]
            /\ outB' = <<bwd'>> \o outB
            /\ bt' = bt - 1 /\ UNCHANGED <<batch, garbage, t, fwd, outF, outW, hyps, made>>

\* The states of the hypotheses in the given order are combined, advanced by
\* one word each, and divided again among new hypotheses.
Combine(q) == [i \in 1..Len(q) |-> hyps[q[i]].st]
Advance(q, ws) ==
    /\ batch = <<>> /\ made + Len(q) <= MaxHyps
    /\ LET new == [i \in 1..Len(q) |-> Append(Combine(q)[i], ws[i])]
       IN  hyps' = hyps \o [i \in 1..Len(q) |-> [h |-> Append(hyps[q[i]].h, ws[i]), st |-> new[i]]]
    /\ made' = made + Len(q)
    /\ UNCHANGED <<batch, garbage, t, fwd, bt, bwd, outF, outB, outW>>
Next == \/ Forward \/ Backward
        \/ \E n \in 1..2 : \E q \in [1..n -> DOMAIN hyps], ws \in [1..n -> Words] : Advance(q, ws)
Spec == Init /\ [][Next]_vars

\* Only the words up to t of the own sentence.
ForwardPrefix == \A u \in DOMAIN outF : \A i \in DOMAIN batch :
                    Active(batch[i], u) => outF[u][i] = Prefix(batch[i], u)
\* Only the words after the predicted one.
BackwardSuffix == bt = 0 /\ outB # <<>> =>
    \A u \in 1..T : \A i \in DOMAIN batch : Active(batch[i], u) =>
        /\ outB[u][i] = BackWant(batch[i], u)
        /\ SelectSeq(outB[u][i], LAMBDA w : w # Pad) = Reverse(Suffix(batch[i], u))
\* A window of the own history, whatever the padding.
WindowPrefix == \A u \in DOMAIN outW : \A i \in DOMAIN batch : Active(batch[i], u) =>
    outW[u][i] = Window(Prefix(batch[i], u), u, WindowSize, "none")
StepPrefix == \A i \in DOMAIN hyps : hyps[i].st = hyps[i].h
=============================================================================
