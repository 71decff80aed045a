----------------------------- MODULE TrainerGen -----------------------------
(* Behaviours of the training process for replay into the real trainer: the *)
(* configuration, the perplexities measured, and after which updates the    *)
(* process is killed.  Printed when training has ended (or was long enough).*)
EXTENDS TrainerMC, Json

VARIABLE hist

GenInit == Init /\ hist = [ppls |-> <<>>, kills |-> <<>>]

GenNext ==
    \/ /\ phase = "epoch" /\ Unseen(k, t) # {} /\ ghost.total < MaxUpdates
       /\ IF Samples(k, t.upd + 1)
          THEN \E p \in Ppls : Step(p) /\ hist' = [hist EXCEPT !.ppls = Append(@, p)]
          ELSE Step(0) /\ hist' = hist
       /\ UNCHANGED k
    \/ (BeginEpoch \/ EndEpoch) /\ UNCHANGED hist
    \/ Crash /\ phase # "done" /\ ghost.last = "update"
             /\ hist' = [hist EXCEPT !.kills = Append(@, ghost.total)]
    \/ /\ phase # "stop" /\ ((phase = "between" /\ ~NewEpoch(k, t)) \/ ghost.total = MaxUpdates)
       /\ phase' = "stop" /\ UNCHANGED <<k, t, ghost, hist>>
       /\ PrintT("SCN " \o ToJson([k |-> k, h |-> hist]))
=============================================================================
