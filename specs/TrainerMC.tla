----------------------------- MODULE TrainerMC -----------------------------
(* The training process as a state machine, with crashes, and its           *)
(* properties, for exhaustive checking with small constants.                *)
EXTENDS Trainer

CONSTANTS Ppls, Upes, Spvs, Freqs, Crits, MaxUpdates, Crashes

Patiences == {-1, 0, 1}

\* ghost: total  updates made so far (identifies parameters), anneals number of
\* rollbacks of this process, best the best validation cost of the lineage,
\* crashes so far, last the kind of the last step
Init ==
    /\ k \in [upe : Upes, n : Upes, b : {1}, valid : BOOLEAN, freq : Freqs, spv : Spvs,
              patience : Patiences, crit : Crits, minep : {0, 1}, maxep : {1, 2}, maxann : {0, 1}]
    /\ k.n = k.upe
    /\ k.freq <= k.upe
    /\ ~k.valid => k.freq = 1 /\ k.spv = 1 /\ k.patience = -1
    /\ k.crit # "anneal" => k.maxann = 0
    /\ k.crit = "epoch" => k.minep = 0
    /\ t = Start(k, 0)
    /\ phase = "between"
    /\ ghost = [total |-> 0, anneals |-> 0, crashes |-> 0, last |-> "init", prev |-> <<>>]

Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y

BeginEpoch ==
    /\ phase = "between" /\ NewEpoch(k, t)
    /\ phase' = "epoch" /\ t' = Asked(k, t) /\ ghost' = [ghost EXCEPT !.last = "begin", !.prev = <<t>>]
    /\ UNCHANGED k

Finish ==
    /\ phase = "between" /\ ~NewEpoch(k, t)
    /\ phase' = "done" /\ UNCHANGED <<k, t>> /\ ghost' = [ghost EXCEPT !.last = "finish", !.prev = <<t>>]

Step(ppl) ==
    LET u == Updated(k, t, {Smallest(Unseen(k, t))}, ghost.total + 1, ppl) IN
    /\ t' = Asked(k, u)
    /\ phase' = IF GoesOn(k, u) THEN "epoch" ELSE "leaving"
    /\ ghost' = [ghost EXCEPT !.total = @ + 1, !.last = "update", !.prev = <<t>>,
                              !.anneals = IF u.halv > t.halv THEN @ + 1 ELSE @]

Update ==
    /\ phase = "epoch" /\ Unseen(k, t) # {}
    /\ IF Samples(k, t.upd + 1) THEN \E p \in Ppls : Step(p) ELSE Step(0)
    /\ UNCHANGED k

EndEpoch ==
    /\ phase = "leaving" \/ (phase = "epoch" /\ Unseen(k, t) = {})
    /\ t' = EpochEnded(k, t) /\ phase' = "between" /\ UNCHANGED k
    /\ ghost' = [ghost EXCEPT !.last = "endepoch", !.prev = <<t>>]

\* The process dies (or has finished) and is started again from the file.
Crash ==
    /\ ghost.crashes < Crashes
    /\ phase' = "between"
    /\ t' = IF t.file = <<>> THEN Start(k, 0) ELSE Resume(k, t.file[1])
    /\ ghost' = [ghost EXCEPT !.crashes = @ + 1, !.last = "crash", !.anneals = 0, !.prev = <<t>>]
    /\ UNCHANGED k

Next == BeginEpoch \/ Finish \/ Update \/ EndEpoch \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(BeginEpoch \/ Finish \/ Update \/ EndEpoch)

Bound == ghost.total <= MaxUpdates
\* Neither the identity of old parameters nor the previous state matter.
View == <<k, t, phase, ghost.anneals, ghost.crashes, ghost.last>>

-----------------------------------------------------------------------------
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* The candidate is the last entry of the saved history, which the current
\* history extends.
FileIsCandidate ==
    (t.file # <<>> /\ k.valid) =>
        /\ t.cand = Len(t.file[1].costs)
        /\ IsPrefixOf(t.file[1].costs, t.costs)

\* No validation since the saved one was significantly better.
BestInFile ==
    k.valid => \A i \in (t.cand + 1)..Len(t.costs) : 1000 * t.costs[i] >= 999 * CandCost(t)

\* Candidates get better and better.
Monotone ==
    [][ (t'.file # <<>> /\ t.file # <<>> /\ t'.file # t.file /\ k.valid)
        => 1000 * t'.file[1].costs[Len(t'.file[1].costs)] < 999 * t.file[1].costs[Len(t.file[1].costs)] ]_vars

\* A state once saved is never lost.
NeverLost == [][ t.file # <<>> => t'.file # <<>> ]_vars

\* The learning rate is halved exactly in a rollback to the saved state.
HalvedOnlyInRollback ==
    [][ (ghost'.last = "update" /\ t'.halv # t.halv) =>
          /\ t'.halv = t.halv + 1
          /\ t'.w = t'.file[1].w /\ t'.seen = t'.file[1].seen
          /\ t'.epoch = t'.file[1].epoch /\ t'.upd = t'.file[1].upd
          /\ t'.costs = t'.file[1].costs
          /\ t'.samples = <<>> /\ t'.center = <<>> ]_vars

\* Patience bounds the number of failures that are waited for.
PatienceBound == k.patience >= 0 => Len(t.costs) - t.cand <= k.patience

MaxEpochs == t.epoch <= k.maxep + 1
UpdateInRange == phase = "epoch" => t.upd = Cardinality(t.seen) /\ t.upd <= k.upe

\* Nothing stops before the minimum number of epochs unless at the maximum.
MinEpochs == phase = "done" => t.epoch > k.maxep \/ t.epoch > k.minep

\* The number of annealings is bounded by the annealing criterion once the
\* minimum has passed.
AnnealBound ==
    (k.crit = "anneal" /\ phase = "epoch" /\ t.epoch > k.minep) => ghost.anneals <= k.maxann

\* Without validation, a finished training that is restarted does nothing.
FinishedStays ==
    (~k.valid /\ ghost.last = "crash" /\ t.epoch > k.maxep) => ~NewEpoch(k, t)

\* Restarting continues from the file.
ResumeExact ==
    [][ (ghost'.last = "crash" /\ t.file # <<>>) =>
          Snapshot(t') = t.file[1] /\ t'.file = t.file ]_vars

\* With the epoch count, an uninterrupted training without annealing ends.
Ends == (k.patience = -1 /\ ghost.crashes = 0) ~> (phase = "done" \/ ghost.crashes > 0)
=============================================================================
