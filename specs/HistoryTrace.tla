---------------------------- MODULE HistoryTrace ----------------------------
(* Validates predictions recorded from real networks.  A case is a network  *)
(* with fixed parameters.  Events:                                          *)
(*   batch  a mini-batch was processed: text (word IDs of each sentence),   *)
(*          out[n][t] the class probabilities predicted after t words       *)
(*   target the probabilities of given target classes in a mini-batch       *)
(*   step   one word was fed to each of some hypotheses: from (0 is the     *)
(*          initial state), words, the new hypotheses and the predictions   *)
(* Probabilities are in millionths.  The history of each hypothesis is      *)
(* derived here; whatever was predicted first for a history is what has to  *)
(* be predicted for it ever after.                                          *)
EXTENDS History, Functions, TLC, Json

VARIABLES c, l, st, seen, hist

Cases == JsonDeserialize("cases.json")
Case == Cases[c]
Ev == Case.ev[l]
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)
Abs(x) == IF x < 0 THEN -x ELSE x
Tol == 4

\* Bidirectional networks see the later words, too.
Key(s, t) == IF Case.bidir THEN <<Prefix(s, t), Suffix(s, t)>> ELSE <<Prefix(s, t)>>
Same(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Abs(p[i] - q[i]) <= Tol
Sum(p) == FoldSeq(LAMBDA x, y : x + y, 0, p)
Normal(p) == /\ Len(p) = Case.classes
             /\ Abs(Sum(p) - 1000000) <= Case.classes + 3
             /\ \A i \in 1..Len(p) : IF i - 1 = Case.unk THEN p[i] = 0 ELSE p[i] > 0

\* obs: sequence of <<key, distribution>>
Judge(obs) ==
    First(<< <<"not-a-distribution", \A i \in 1..Len(obs) : Normal(obs[i][2])>>,
             <<"depends-on-more-than-history",
               \A i \in 1..Len(obs) : obs[i][1] \in DOMAIN seen => Same(seen[obs[i][1]], obs[i][2])>>,
             <<"depends-on-place-in-batch",
               \A i, j \in 1..Len(obs) : obs[i][1] = obs[j][1] => Same(obs[i][2], obs[j][2])>> >>)
Keep(obs) == LET ks == {obs[i][1] : i \in 1..Len(obs)} \ DOMAIN seen
             IN  TLCEval([k \in ks |-> obs[CHOOSE i \in 1..Len(obs) : obs[i][1] = k][2]] @@ seen)

TraceInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ st = "ok" /\ seen = <<>>
             /\ hist = << >>

TBatch ==
    /\ Ev.a = "batch"
    /\ LET shape == Len(Ev.out) = Len(Ev.text) /\ \A n \in 1..Len(Ev.text) : Len(Ev.out[n]) = Len(Ev.text[n])
           obs == FlattenSeq([n \in 1..Len(Ev.text) |->
                     [t \in 1..Len(Ev.text[n]) |-> <<Key(Ev.text[n], t), Ev.out[n][t]>>]])
       IN  IF ~shape THEN st' = "shape" /\ seen' = seen
           ELSE st' = Judge(obs) /\ seen' = Keep(obs)
    /\ Report(st') /\ UNCHANGED hist

TTarget ==
    /\ Ev.a = "target"
    /\ st' = First(<< <<"target-probability",
          \A n \in 1..Len(Ev.text) : \A t \in 1..Len(Ev.text[n]) :
             Abs(Ev.out[n][t] - seen[Key(Ev.text[n], t)][Ev.target[n][t] + 1]) <= Tol>> >>)
    /\ Report(st') /\ UNCHANGED <<seen, hist>>

Past(i) == IF i = 0 THEN <<>> ELSE hist[i]
TStep ==
    /\ Ev.a = "step"
    /\ LET new == [i \in 1..Len(Ev.from) |-> Append(Past(Ev.from[i]), Ev.words[i])]
           obs == [i \in 1..Len(Ev.from) |-> <<Key(new[i], Len(new[i])), Ev.out[i]>>]
       IN  /\ st' = Judge(obs) /\ seen' = Keep(obs) /\ hist' = hist \o new
    /\ Report(st')

TOther == /\ Ev.a \notin {"batch", "target", "step"}
          /\ st' = "exception" /\ Report(st') /\ UNCHANGED <<seen, hist>>

TraceNext == /\ st = "ok" /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c
             /\ (TBatch \/ TTarget \/ TStep \/ TOther)
=============================================================================
