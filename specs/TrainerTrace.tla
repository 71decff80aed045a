---------------------------- MODULE TrainerTrace ----------------------------
(* Validates recorded training runs.  A case has the configuration cfg of   *)
(* Trainer.tla with w0, the identity of the initial parameters.  Events:    *)
(*   update  one mini-batch update was made: what the process held before   *)
(*           it (parameters w, optimizer v, learning rate halvings lr,      *)
(*           history: nval validations, twice the best cost cand, number of *)
(*           validations since it), the model file as it is on disk, the    *)
(*           sentences S of the mini-batch in order, the parameters w2      *)
(*           after the update and the perplexity measured after it (0 if    *)
(*           none was)                                                      *)
(*   resume  a new process was started from the file (the old one was       *)
(*           killed before another update, or before its validation ended)  *)
(*   end     the training returned                                          *)
(*   tamper  a process was given a file that lacks some of the state        *)
EXTENDS Trainer, Json

VARIABLES c, l, st, memo

Cases == JsonDeserialize("cases.json")
Ev == Cases[c].ev[l]

BadClauses(cl) == SelectSeq(cl, LAMBDA x : ~x[2])
First(cl) == LET b == BadClauses(cl) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)

\* What happens silently before the next update: the epoch ends, training
\* stops or a new epoch begins (possibly with nothing left to present, if the
\* saved state was at the very end of its epoch).
Silent(x) ==
    CASE x.ph = "leaving" \/ (x.ph = "epoch" /\ Unseen(k, x.s) = {})
                         -> [s |-> EpochEnded(k, x.s), ph |-> "between"]
      [] x.ph = "between" -> IF NewEpoch(k, x.s) THEN [s |-> Asked(k, x.s), ph |-> "epoch"]
                             ELSE [s |-> x.s, ph |-> "done"]
      [] OTHER -> x
Settled(x) == Silent(TLCEval(Silent(TLCEval(Silent(TLCEval(Silent(TLCEval(Silent(x)))))))))

FileEq(f, g) ==
    IF g = <<>> THEN f = <<>>
    ELSE /\ f # <<>>
         /\ f[1].epoch = g[1].epoch /\ f[1].upd = g[1].upd
         /\ f[1].costs = g[1].costs
FileParams(f, g) == g # <<>> => f[1].w = g[1].w /\ f[1].v = g[1].w
FileRate(f, g) == g # <<>> => f[1].halv = g[1].halv

\* What can be seen of the process and of its file.
Held(e, s) == <<
    <<"parameters", e.w = s.w>>,
    <<"optimizer-state", e.v = s.w>>,
    <<"learning-rate", e.lr = s.halv>>,
    <<"number-of-validations", e.nval = Len(s.costs)>>,
    <<"best-cost", e.cand = CandCost(s)>>,
    <<"validations-since-best", e.since = Len(s.costs) - s.cand>>,
    <<"file-history-or-position", FileEq(e.file, s.file)>>,
    <<"file-parameters", FileParams(e.file, s.file)>>,
    <<"file-learning-rate", FileRate(e.file, s.file)>> >>

TraceInit ==
    /\ c \in 1..Len(Cases)
    /\ l = 1 /\ st = "ok" /\ memo = {}
    /\ k = Cases[c].cfg
    /\ t = Start(k, k.w0)
    /\ phase = "between" /\ ghost = <<>>

Rng(s) == {s[i] : i \in 1..Len(s)}

\* After the same state, in the middle of an epoch (or at the beginning, if the
\* state has been saved there), comes the same mini-batch; the same update of
\* the same parameters gives the same parameters.
Same(s) == \A m \in memo :
              /\ (m.w = s.w /\ m.seen = s.seen /\ (s.seen # {} \/ (~k.valid /\ s.file # <<>>))) => m.S = Ev.S
              /\ (m.w = s.w /\ m.S = Ev.S /\ m.lr = s.halv /\ k.real) => m.w2 = Ev.w2

TUpdate ==
    /\ Ev.a = "update"
    /\ LET x == TLCEval(Settled([s |-> t, ph |-> phase]))
           s == x.s
           bad == First(<< <<"trained-past-stop", x.ph = "epoch">> >> \o Held(Ev, s) \o
                        << <<"mini-batch", Len(Ev.S) = Cardinality(Rng(Ev.S)) /\ BatchOk(k, s, Rng(Ev.S))>>,
                           <<"not-repeated-after-restore", Same(s)>>,
                           <<"validation-schedule", (Ev.ppl # 0) = Samples(k, s.upd + 1)>> >>)
       IN  /\ st' = bad /\ Report(bad)
           /\ IF bad = "ok"
              THEN LET u == TLCEval(Updated(k, s, Rng(Ev.S), Ev.w2, Ev.ppl)) IN
                   /\ t' = Asked(k, u)
                   /\ phase' = (IF GoesOn(k, u) THEN "epoch" ELSE "leaving")
                   /\ memo' = memo \cup {[w |-> s.w, seen |-> s.seen, S |-> Ev.S, lr |-> s.halv, w2 |-> Ev.w2]}
              ELSE UNCHANGED <<t, phase, memo>>

TResume ==
    /\ Ev.a = "resume"
    /\ LET x == TLCEval(Settled([s |-> t, ph |-> phase]))
           n == IF x.s.file = <<>> THEN Start(k, k.w0) ELSE Resume(k, x.s.file[1])
           bad == First(Held(Ev, n) \o
                        << <<"epoch-number", Ev.epoch = n.epoch>>, <<"update-number", Ev.upd = n.upd>> >>)
       IN  /\ st' = bad /\ Report(bad)
           /\ t' = n /\ phase' = "between"
    /\ UNCHANGED memo

TEnd ==
    /\ Ev.a = "end"
    /\ LET x == TLCEval(Settled([s |-> t, ph |-> phase]))
           bad == First(<< <<"stopped-early", x.ph = "done">> >> \o Held(Ev, x.s) \o
                        << <<"epoch-number", Ev.epoch = x.s.epoch>> >>)
       IN  /\ st' = bad /\ Report(bad)
           /\ t' = x.s /\ phase' = x.ph
    /\ UNCHANGED memo

\* A new process was given the file with something removed from it.
TTamper ==
    /\ Ev.a = "tamper"
    /\ st' = (IF Ev.rejected THEN "ok" ELSE "incomplete-state-accepted")
    /\ Report(st') /\ UNCHANGED <<t, phase, memo>>

TOther == /\ Ev.a \notin {"update", "resume", "end", "tamper"}
          /\ st' = "exception" /\ Report(st') /\ UNCHANGED <<t, phase, memo>>

TraceNext == /\ st = "ok" /\ l <= Len(Cases[c].ev)
             /\ l' = l + 1 /\ UNCHANGED <<c, k, ghost>>
             /\ (TUpdate \/ TResume \/ TEnd \/ TTamper \/ TOther)
=============================================================================
