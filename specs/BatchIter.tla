----------------------------- MODULE BatchIter -----------------------------
(***************************************************************************)
(* Reading text as mini-batches of word ID sequences.                      *)
(*                                                                         *)
(* A data set is a sequence of files, a file a sequence of lines, a line a *)
(* sequence of words (blank lines are empty).  Every non-blank line is a   *)
(* sentence; start and end tokens are added where missing; the sentence is *)
(* cut into pieces of at most maxlen words and pieces shorter than two     *)
(* words are left out.  A linear reader owes the pieces in file order; a   *)
(* shuffling reader draws, in each epoch, a sample of lines of every file  *)
(* and owes the pieces of the drawn lines, in whatever order it draws.     *)
(* Which line is drawn next is the only nondeterminism.                    *)
(*                                                                         *)
(* A reader is the record                                                  *)
(*   pend   the pieces owed next (rest of the current sentence, or, for a  *)
(*          linear reader, the rest of the data)                           *)
(*   rem    for each file, how many times each line may still be drawn     *)
(*   left   for each file, how many lines are still to be drawn            *)
(*   again  pieces already presented once after the position that has been *)
(*          restored: they must now be presented again, in the same order  *)
(*   fin    whether the epoch ended right after "again"                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT Cfgs              \* configurations explored by Init

VARIABLES cfg, rd, saved, tail, tailend, epoch, shown

vars == <<cfg, rd, saved, tail, tailend, epoch, shown>>

SOS == "<s>"
EOS == "</s>"

-----------------------------------------------------------------------------
(* Sentences and pieces. *)

Min2(a, b) == IF a < b THEN a ELSE b
MaxSet(S)  == CHOOSE x \in S : \A y \in S : y <= x

WithStart(ws) == IF ws[1] = SOS THEN ws ELSE <<SOS>> \o ws
WithEnd(ws)   == IF ws[Len(ws)] = EOS THEN ws ELSE Append(ws, EOS)
Sentence(line) == IF line = <<>> THEN <<>> ELSE WithEnd(WithStart(line))

RECURSIVE Cut(_, _)
Cut(ws, n) ==
    IF ws = <<>> THEN <<>>
    ELSE IF n = 0 \/ Len(ws) <= n
         THEN IF Len(ws) < 2 THEN <<>> ELSE <<ws>>
         ELSE (IF n < 2 THEN <<>> ELSE <<SubSeq(ws, 1, n)>>)
              \o Cut(SubSeq(ws, n + 1, Len(ws)), n)

WordId(k, w) ==
    IF w \in DOMAIN k.ids
    THEN IF k.oosunk /\ k.ids[w] >= k.nshort THEN k.ids["<unk>"] ELSE k.ids[w]
    ELSE k.ids["<unk>"]

LinePieces(k, f, i) ==
    LET cut == Cut(Sentence(k.files[f][i]), k.maxlen)
    IN  [j \in 1..Len(cut) |->
            [f |-> f - 1, ws |-> cut[j],
             ids |-> [x \in 1..Len(cut[j]) |-> WordId(k, cut[j][x])]]]

AllPieces(k) ==
    FlattenSeq([f \in 1..Len(k.files) |->
        FlattenSeq([i \in 1..Len(k.files[f]) |-> LinePieces(k, f, i)])])

Blank(k, f, i) == k.files[f][i] = <<>>

-----------------------------------------------------------------------------
(* The beginning of an epoch.  frac is the sampling fraction in tenths; a  *)
(* half may be rounded either way.                                         *)

SampleSizes(k, f) ==
    LET t == k.frac[f] * Len(k.files[f])
    IN  IF t % 10 < 5 THEN {t \div 10}
        ELSE IF t % 10 > 5 THEN {t \div 10 + 1} ELSE {t \div 10, t \div 10 + 1}

Fresh(k, size) ==
    [pend  |-> IF k.shuffle THEN <<>> ELSE TLCEval(AllPieces(k)),
     rem   |-> [f \in 1..Len(k.files) |->
                  [i \in 1..Len(k.files[f]) |->
                     IF ~k.shuffle THEN 0
                     ELSE IF size[f] > Len(k.files[f]) THEN size[f] ELSE 1]],
     left  |-> [f \in 1..Len(k.files) |-> IF k.shuffle THEN size[f] ELSE 0],
     again |-> <<>>, fin |-> FALSE]

\* Halves are rounded either way, but all alike.
SizeHalf(k, h) == TLCEval([f \in 1..Len(k.files) |-> (k.frac[f] * Len(k.files[f]) + h) \div 10])
Sizes(k) == IF k.shuffle THEN {SizeHalf(k, 4), SizeHalf(k, 5)} ELSE {<<>>}

-----------------------------------------------------------------------------
(* Consuming one piece: the set of readers that may result. *)

\* What has been presented before must be presented again.
AgainOk(r, p) == (r.again = <<>> \/ Head(r.again) = p) /\ ~(r.again = <<>> /\ r.fin)
AgainTail(r)  == IF r.again = <<>> THEN <<>> ELSE Tail(r.again)

Drawable(k, r, f, i) == r.left[f] > 0 /\ r.rem[f][i] > 0

Draw(k, r, f, i) ==
    [r EXCEPT !.rem[f][i] = @ - 1, !.left[f] = @ - 1]

Consume(k, r, p) ==
    IF ~AgainOk(r, p) THEN {}
    ELSE IF r.pend # <<>>
    THEN IF Head(r.pend) = p
         THEN {[r EXCEPT !.pend = Tail(@), !.again = AgainTail(r)]} ELSE {}
    ELSE LET f == p.f + 1 IN
         IF f \notin 1..Len(k.files) THEN {}
         ELSE LET C == {i \in 1..Len(k.files[f]) :
                           /\ Drawable(k, r, f, i)
                           /\ ~Blank(k, f, i)
                           /\ LET lp == LinePieces(k, f, i)
                              IN lp # <<>> /\ lp[1] = p}
              IN {[Draw(k, r, f, i) EXCEPT !.pend = Tail(LinePieces(k, f, i)),
                                           !.again = AgainTail(r)] : i \in C}

\* Nothing that has to be presented is left: lines still to be drawn can only
\* be blank ones.
Invisible(k, f, i) == LinePieces(k, f, i) = <<>>
Exhausted(k, r) ==
    /\ r.pend = <<>>
    /\ r.again = <<>>
    /\ \A f \in 1..Len(k.files) :
          \/ r.left[f] = 0
          \/ LET inv == {i \in 1..Len(k.files[f]) : Invisible(k, f, i) /\ r.rem[f][i] > 0}
             IN  IF r.left[f] > Len(k.files[f])
                 THEN inv # {}
                 ELSE \/ r.left[f] <= Cardinality(inv)
                      \/ \E i \in inv : r.rem[f][i] >= r.left[f]

-----------------------------------------------------------------------------
(* The reader as a state machine. *)

NoPos == [pend |-> <<>>, rem |-> <<>>, left |-> <<>>, again |-> <<>>, fin |-> FALSE]

Init == /\ cfg \in Cfgs
        /\ \E s \in Sizes(cfg) : rd = Fresh(cfg, s)
        /\ saved = <<>> /\ tail = <<>> /\ tailend = FALSE
        /\ epoch = 1 /\ shown = <<>>

\* One sequence is presented.  (That sequences are grouped in batches is
\* checked by the trace specification: a batch is full unless the reader is
\* exhausted.)
Present(p) ==
    /\ rd' \in Consume(cfg, rd, p)
    /\ shown' = Append(shown, p)
    /\ tail' = IF saved # <<>> /\ ~tailend THEN Append(tail, p) ELSE tail
    /\ UNCHANGED <<cfg, saved, tailend, epoch>>

EndEpoch ==
    /\ Exhausted(cfg, rd) = TRUE     \* (evaluated as a value, not branched on)
    /\ \E s \in Sizes(cfg) : rd' = Fresh(cfg, s)
    /\ epoch' = epoch + 1 /\ shown' = <<>>
    /\ tailend' = (tailend \/ saved # <<>>)
    /\ UNCHANGED <<cfg, saved, tail>>

Save ==
    /\ saved' = <<[rd |-> rd, epoch |-> epoch, shown |-> shown]>>
    /\ tail' = <<>> /\ tailend' = FALSE
    /\ UNCHANGED <<cfg, rd, epoch, shown>>

Restore ==
    /\ saved # <<>>
    \* What was known about the rest of the epoch when the position was saved
    \* is now joined with what has been seen of it since.
    /\ LET r == saved[1].rd
           known == IF Len(tail) >= Len(r.again) THEN tail ELSE r.again
       IN rd' = [r EXCEPT !.again = known, !.fin = (r.fin \/ tailend)]
    /\ epoch' = saved[1].epoch /\ shown' = saved[1].shown
    /\ saved' = <<[saved[1] EXCEPT !.rd = rd']>>
    /\ tail' = <<>> /\ tailend' = FALSE
    /\ UNCHANGED cfg

Next == \/ \E f \in 1..Len(cfg.files) : \E i \in 1..Len(cfg.files[f]) :
              \E p \in {LinePieces(cfg, f, i)[j] : j \in 1..Len(LinePieces(cfg, f, i))} :
                 Present(p)
        \/ EndEpoch
        \/ (cfg.shuffle /\ Save)
        \/ (cfg.shuffle /\ Restore)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a user relies on. *)

Occ(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
EqualBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Occ(s, s[i]) = Occ(t, s[i])
WithinBag(s, t)  == \A i \in 1..Len(s) : Occ(s, s[i]) <= Occ(t, s[i])

FullySampled(k) == \A f \in 1..Len(k.files) : k.frac[f] = 10

\* At the end of every epoch over fully sampled files, exactly the data.
EpochComplete ==
    (FullySampled(cfg) /\ Exhausted(cfg, rd)) => EqualBag(shown, AllPieces(cfg))

\* A linear reader presents the data in order.
LinearOrder ==
    ~cfg.shuffle => shown \o rd.pend = AllPieces(cfg)

\* Never more than the data unless more was asked for.
NoRepeats ==
    (\A f \in 1..Len(cfg.files) : cfg.frac[f] <= 10) => WithinBag(shown, AllPieces(cfg))

\* The number of sentences of a partially sampled file is the rounded fraction.
NDrawn(k, s, f) == Cardinality({j \in 1..Len(s) : s[j].f = f - 1 /\ s[j].ws[1] = SOS})
SampleBound ==
    Exhausted(cfg, rd) =>
       \A f \in 1..Len(cfg.files) :
          cfg.maxlen = 0 => NDrawn(cfg, shown, f) <= MaxSet(SampleSizes(cfg, f))

\* A reader can always go on: it owes a piece or the epoch is over.
NoStall ==
    \/ rd.again # <<>>
    \/ rd.pend # <<>>
    \/ Exhausted(cfg, rd)
    \/ \E f \in 1..Len(cfg.files) : \E i \in 1..Len(cfg.files[f]) : Drawable(cfg, rd, f, i)
=============================================================================
