--------------------------- MODULE TextSamplingMC ---------------------------
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS MaxN, MaxLen, MaxSeed
Start0 == 1
\* Classes 0..2; 1 is the start, 4 the end; 2 and 3 belong to the same class.
Class(w) == CASE w = 1 -> 0 [] w \in {2, 3} -> 1 [] w = 4 -> 2
Members(k) == {w \in 1..4 : Class(w) = k}
Total0(h) == FoldLeft(LAMBDA a, w : (3 * a + w) % 7, 1, h)
Support(h) == {k \in 0..2 : (Total0(h) + k) % 3 # 0}

VARIABLES n, len, seed, s, t
vars == <<n, len, seed, s, t>>
M == INSTANCE TextSampling WITH Start <- Start0, Sup <- Support, Mem <- Members

Seeds == UNION {[1..k -> {2, 3}] : k \in 0..MaxSeed}
Init == /\ n \in 1..MaxN /\ len \in 1..MaxLen /\ seed \in Seeds
        /\ s = M!Sampler0(n) /\ t = 1
Read == /\ t <= Len(seed)
        /\ s' = M!Feed(s, seed[t]) /\ t' = t + 1 /\ UNCHANGED <<n, len, seed>>
Draw == /\ t > Len(seed) /\ t < M!Total(len, seed)
        /\ \E d \in [1..n -> 1..4] :
             /\ \A i \in 1..n : d[i] \in M!Drawable(s[i])
             /\ s' = M!Sample(s, d)
        /\ t' = t + 1 /\ UNCHANGED <<n, len, seed>>
Next == Read \/ Draw
Spec == Init /\ [][Next]_vars

Done == t = M!Total(len, seed)
Lengths == \A i \in 1..n : Len(s[i].out) = t
SeedFirst == Done => \A i \in 1..n : M!Begins(s[i].out, seed)
\* Every sampled word may follow the words before it in its own sequence.
Follows == \A i \in 1..n : \A p \in (Len(seed) + 2)..Len(s[i].out) : M!Possible(s[i].out, p, Class)
\* A sequence sampled among others could have been sampled alone.
Alone == \A i \in 1..n : s[i].st = SubSeq(s[i].out, 1, Len(s[i].out) - 1) /\ s[i].in = Last(s[i].out)
Written == Done => \A i \in 1..n : M!WrittenRight(M!UpToEnd(s[i].out, 4), M!Total(len, seed), 4)
=============================================================================
