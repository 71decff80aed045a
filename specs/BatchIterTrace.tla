-------------------------- MODULE BatchIterTrace --------------------------
(* Validates recorded iterations of the real readers.  One case per initial *)
(* state; each event is one call.  Events:                                  *)
(*   seq    one sequence of a batch: its columns w (word IDs), f (file IDs), *)
(*          m (mask), ws (words as text, scoring readers only)              *)
(*   batch  the end of a batch                                              *)
(*   stop   the end of the epoch was signalled                              *)
(*   save / restore of the position; len: the reported number of batches    *)
EXTENDS BatchIter, Json

VARIABLES c, l, st, cnt, full     \* cnt: sequences in the current batch

Cases == JsonDeserialize("cases.json")
Ev == Cases[c].ev[l]

First(clauses) ==
    LET bad == {i \in 1..Len(clauses) : ~clauses[i][2]}
    IN  IF bad = {} THEN "ok"
        ELSE clauses[CHOOSE i \in bad : \A j \in bad : i <= j][1]

Ones(m) == Cardinality({i \in 1..Len(m) : m[i] = 1})
MaskOk(col) == \A i \in 1..Len(col.m) : col.m[i] = (IF i <= Ones(col.m) THEN 1 ELSE 0)
ShapeOk(col) == /\ Len(col.w) = col.t /\ Len(col.m) = col.t
                /\ cfg.hasfid => Len(col.f) = col.t

\* The piece that a column presents; the text is only known for scoring
\* readers, otherwise it is whatever the reader owes for these word IDs.
ColIds(col) == SubSeq(col.w, 1, Ones(col.m))
ColFiles(col) == {col.f[i] : i \in 1..Ones(col.m)}

Candidates(k, r) ==
    IF r.pend # <<>> THEN {Head(r.pend)}
    ELSE UNION {{LinePieces(k, f, i)[1] : i \in {x \in 1..Len(k.files[f]) :
                    Drawable(k, r, f, x) /\ LinePieces(k, f, x) # <<>>}} : f \in 1..Len(k.files)}

ColMatches(col, p) ==
    /\ p.ids = ColIds(col)
    /\ cfg.hasfid => ColFiles(col) = {p.f}
    /\ cfg.hasws  => col.ws = p.ws

NumBatches == (Len(AllPieces(cfg)) + cfg.batch - 1) \div cfg.batch

Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)

TraceInit ==
    /\ c \in 1..Len(Cases)
    /\ l = 1 /\ st = "ok"
    /\ cfg = Cases[c].cfg
    /\ rd = Fresh(cfg, CHOOSE s \in Sizes(cfg) : TRUE)
    /\ saved = <<>> /\ tail = <<>> /\ tailend = FALSE
    /\ epoch = 1 /\ shown = <<>>
    /\ cnt = 0 /\ full = FALSE

\* One sequence of a batch.
TSeq ==
    /\ Ev.a = "seq"
    /\ LET P == {p \in Candidates(cfg, rd) : ColMatches(Ev, p)}
           pre == First(<< <<"batch-shape", ShapeOk(Ev)>>, <<"mask", MaskOk(Ev)>>,
                           <<"sequence-not-owed", P # {}>>,
                           <<"rest-of-epoch-differs-after-restore", \E p \in P : Consume(cfg, rd, p) # {}>> >>)
       IN IF pre = "ok"
          THEN LET p == CHOOSE p \in P : Consume(cfg, rd, p) # {}
               IN  /\ st' = "ok"
                   /\ rd' = (CHOOSE x \in Consume(cfg, rd, p) : TRUE)
                   /\ shown' = <<>>
                   /\ tail' = IF saved # <<>> /\ ~tailend THEN Append(tail, p) ELSE tail
                   /\ UNCHANGED <<cfg, saved, tailend, epoch>>
          ELSE st' = pre /\ Report(pre) /\ UNCHANGED vars
    /\ cnt' = cnt + 1 /\ full' = (full \/ Ones(Ev.m) = Ev.t)

\* The batch ends: it is full unless nothing is left, and no longer than its
\* longest sequence.
TBatch ==
    /\ Ev.a = "batch"
    /\ st' = First(<< <<"batch-empty", cnt > 0>>, <<"batch-size", cnt <= cfg.batch>>,
                      <<"batch-shape", full>>,
                      <<"batch-not-full", cnt = cfg.batch \/ Exhausted(cfg, rd)>> >>)
    /\ Report(st')
    /\ cnt' = 0 /\ full' = FALSE /\ UNCHANGED vars

\* The end of the epoch: everything owed has been presented.
TStop ==
    /\ Ev.a = "stop"
    /\ IF Exhausted(cfg, rd)
       THEN EndEpoch /\ st' = "ok"
       ELSE st' = "epoch-ended-early" /\ Report(st') /\ UNCHANGED vars

TSave == Ev.a = "save"  /\ Save /\ st' = "ok"
TRestore == Ev.a = "restore" /\ Restore /\ st' = "ok"

TLen == /\ Ev.a = "len"
        /\ st' = (IF Ev.n = NumBatches THEN "ok" ELSE "len")
        /\ Report(st') /\ UNCHANGED vars

TOther == /\ Ev.a \notin {"seq", "batch", "stop", "save", "restore", "len"}
          /\ st' = "exception" /\ Report(st') /\ UNCHANGED vars

TraceNext == /\ st = "ok" /\ l <= Len(Cases[c].ev)
             /\ l' = l + 1 /\ UNCHANGED c
             /\ \/ TSeq \/ TBatch
                \/ (TStop \/ TSave \/ TRestore \/ TLen \/ TOther) /\ UNCHANGED <<cnt, full>>
=============================================================================
