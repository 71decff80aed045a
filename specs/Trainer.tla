------------------------------ MODULE Trainer ------------------------------
(***************************************************************************)
(* The training process: mini-batch updates over epochs, validation by     *)
(* several perplexity samples, keeping the best state in the model file,   *)
(* rollback with a halved learning rate, stopping criteria, and restarting *)
(* from the model file after a stop or crash.                              *)
(*                                                                         *)
(* A configuration k has                                                   *)
(*   upe     updates per epoch that the validation schedule is based on    *)
(*   n, b    number of sentences, sentences per mini-batch                 *)
(*   valid   whether there is validation data                              *)
(*   freq    validations per epoch, spv samples per validation             *)
(*   patience  validations without improvement before annealing (-1: none) *)
(*   crit    "epoch", "noimp" or "anneal"; minep, maxep, maxann            *)
(*                                                                         *)
(* The state t of the process has                                          *)
(*   epoch, upd   current epoch, updates made in it                        *)
(*   w            identity of the network and optimizer parameters         *)
(*   halv         how many times the learning rate has been halved         *)
(*   costs        validation history (twice the median, so integers)       *)
(*   cand         index of the candidate cost (0: none)                    *)
(*   samples      perplexity samples of the coming validation              *)
(*   center       the state at the centre of the samples (<<>> or 1-tuple) *)
(*   seen         sentences presented in this epoch                        *)
(*   file         the saved state in the model file (<<>> or 1-tuple)      *)
(*   annl, nicost, niimp   memory of the stopping criteria                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES k, t, phase, ghost

vars == <<k, t, phase, ghost>>

-----------------------------------------------------------------------------
Snapshot(s) == [epoch |-> s.epoch, upd |-> s.upd, w |-> s.w, halv |-> s.halv,
                costs |-> s.costs, seen |-> s.seen]

Start(kk, w0) ==
    [epoch |-> 1, upd |-> 0, w |-> w0, halv |-> 0, costs |-> <<>>, cand |-> 0,
     samples |-> <<>>, center |-> <<>>, seen |-> {}, file |-> <<>>,
     annl |-> kk.maxann, nicost |-> 0, niimp |-> TRUE]

\* A new process that finds state f in the model file.
Resume(kk, f) ==
    [epoch |-> f.epoch, upd |-> f.upd, w |-> f.w, halv |-> f.halv,
     costs |-> f.costs, cand |-> Len(f.costs), samples |-> <<>>, center |-> <<>>,
     seen |-> f.seen, file |-> <<f>>,
     annl |-> kk.maxann, nicost |-> 0, niimp |-> TRUE]

\* The same process returning to the saved state.
Rollback(s) ==
    LET f == s.file[1]
    IN  [s EXCEPT !.epoch = f.epoch, !.upd = f.upd, !.w = f.w, !.halv = f.halv,
                  !.costs = f.costs, !.cand = Len(f.costs), !.seen = f.seen]

CandCost(s) == IF s.cand = 0 THEN 0 ELSE s.costs[s.cand]

-----------------------------------------------------------------------------
(* Stopping criteria. *)

\* Called when annealing, after the rollback.
Ceased(kk, s) ==
    IF kk.crit = "anneal" THEN [s EXCEPT !.annl = @ - 1]
    ELSE IF kk.crit = "noimp"
    THEN IF s.cand = 0 THEN [s EXCEPT !.niimp = FALSE]
         ELSE IF s.nicost = 0 THEN [s EXCEPT !.niimp = TRUE, !.nicost = CandCost(s)]
         ELSE [s EXCEPT !.niimp = CandCost(s) < s.nicost, !.nicost = CandCost(s)]
    ELSE s

\* An improvement found while waiting for the minimum number of epochs counts.
Late(s) == s.cand # 0 /\ (s.nicost = 0 \/ CandCost(s) < s.nicost)

GoesOn(kk, s) ==
    CASE kk.crit = "epoch" -> TRUE
      [] kk.crit = "noimp" -> s.epoch <= kk.minep \/ s.niimp \/ Late(s)
      [] kk.crit = "anneal" -> s.epoch <= kk.minep \/ s.annl >= 0

\* Being asked is remembered by the no-improvement criterion.
Asked(kk, s) ==
    IF kk.crit = "noimp" /\ s.epoch > kk.minep /\ ~s.niimp /\ Late(s)
    THEN [s EXCEPT !.niimp = TRUE] ELSE s

NewEpoch(kk, s) == s.epoch <= kk.maxep /\ GoesOn(kk, s)

-----------------------------------------------------------------------------
(* Validation. *)

Scheduled(kk, u, within) ==
    LET m == (u * kk.freq) % kk.upe
    IN  m < kk.freq \/ kk.upe - m <= within * kk.freq

\* Whether a perplexity is computed after update number u.
Samples(kk, u) == kk.valid /\ Scheduled(kk, u, kk.spv - 1)

Sorted(s) == SortSeq(s, <)
\* Twice the median.
Median2(s) == LET q == Sorted(s) n == Len(s)
              IN  IF n % 2 = 1 THEN 2 * q[(n + 1) \div 2]
                  ELSE q[n \div 2] + q[n \div 2 + 1]

Improves(s, cost) == s.cand = 0 \/ 1000 * cost < 999 * CandCost(s)

\* The whole of validation after an update, given the measured perplexity.
Validated(kk, s0, ppl) ==
    IF ~Samples(kk, s0.upd) THEN s0
    ELSE LET s1 == [s0 EXCEPT !.samples = Append(@, ppl)] IN
    IF ~Scheduled(kk, s0.upd, kk.spv \div 2) THEN s1
    ELSE LET s2 == IF s1.center = <<>> THEN [s1 EXCEPT !.center = <<Snapshot(s1)>>] ELSE s1 IN
    IF ~Scheduled(kk, s0.upd, 0) THEN s2
    ELSE IF Len(s2.samples) < kk.spv
    THEN [s2 EXCEPT !.samples = <<>>, !.center = <<>>]        \* incomplete: ignored
    ELSE LET cost == Median2(s2.samples)
             s3 == [s2 EXCEPT !.costs = Append(@, cost)]
             s4 == IF Improves(s2, cost)
                   THEN [s3 EXCEPT !.cand = Len(s3.costs),
                                   !.file = <<[s3.center[1] EXCEPT !.costs = s3.costs]>>]
                   ELSE s3
             s5 == IF kk.patience >= 0 /\ Len(s4.costs) - s4.cand > kk.patience
                   THEN [Ceased(kk, Rollback(s4)) EXCEPT !.halv = s4.halv + 1]
                   ELSE s4
         IN  [s5 EXCEPT !.samples = <<>>, !.center = <<>>]

-----------------------------------------------------------------------------
(* Actions. *)

Unseen(kk, s) == (1..kk.n) \ s.seen

\* One mini-batch update with sentences S; the parameters become w.
Updated(kk, s, S, w, ppl) ==
    Validated(kk, [s EXCEPT !.upd = @ + 1, !.w = w, !.seen = @ \cup S], ppl)

\* The end of an epoch; without validation data the state is saved.
EpochEnded(kk, s) ==
    LET e == [s EXCEPT !.epoch = @ + 1, !.upd = 0, !.seen = {}]
    IN  IF kk.valid THEN e ELSE [e EXCEPT !.file = <<Snapshot(e)>>]

BatchOk(kk, s, S) ==
    /\ S # {} /\ S \subseteq Unseen(kk, s)
    /\ Cardinality(S) = kk.b \/ (Cardinality(S) < kk.b /\ S = Unseen(kk, s))

=============================================================================
