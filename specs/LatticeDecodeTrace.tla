------------------------- MODULE LatticeDecodeTrace -------------------------
(* Validates recorded decoding.  A case gives the vocabulary, the options   *)
(* and the network (the stub defined here, or a table of class scores);     *)
(* each event is a lattice and the hypotheses the decoder returned:         *)
(*   words, acoustic, lattice and network scores, graph and total score,    *)
(*   and lin, the linear interpolation of the two language model scores.    *)
(* Scores are in units of 0.00001.                                          *)
EXTENDS LatticeDecode, TextScore, Json

CONSTANT LogDrops       \* whether to keep the dropped tokens

VARIABLES c, l, st, v

Cases == JsonDeserialize("cases.json")
Case == Cases[c]
Ev == Case.ev[l]
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)
Abs(x) == IF x < 0 THEN -x ELSE x
Tol == 40
Tie == 1000

Build == LET a == FoldLeft(LAMBDA x, y : AddWord(x, y.w, y.label, 1), Empty, Case.lines)
             b == FoldLeft(LAMBDA x, y : AddOos(x, y), AddSpecials(a), Case.oos)
         IN  IF Case.counted THEN Counted(b, Case.counts, TRUE) ELSE b

-----------------------------------------------------------------------------
(* Scores of words. *)
Short == Case.short /\ Case.counted
Ln(f) == Case.ln[f[1]] - Case.ln[f[2]]
Token(w) == Stands(v, LookUp(v, w))            \* what the network sees
WordId(w) == (CHOOSE i \in 1..Len(Case.words) : Case.words[i] = w) - 1
ClsId(w) == Case.cls[WordId(w) + 1]
Hash(h) == FoldLeft(LAMBDA x, w : (3 * x + WordId(Token(w)) + 2 * ClsId(Token(w)) + 1) % 101, 0, <<SOS>> \o h)
ClassScore(h, w) ==
    IF Case.stub THEN -2500 * (20 + ((7 * Hash(h) + 13 * ClsId(Token(w))) % 97))
    ELSE Ev.table[CHOOSE i \in DOMAIN Ev.table : Ev.table[i].h = Append(h, w)].x
Network(h, w) == ClassScore(h, w) + Ln(Member(v, Token(w)))

\* An unknown word has the score given for unknown words, if any.
UnkScore(k) == IF Case.fromlat THEN [has |-> ~k.nm, x |-> k.m] ELSE Case.penalty
TraceLinkScore(h, k) ==
    LET w == k.w
        u == UnkScore(k)
    IN  IF Short
        THEN IF Has(v, w) THEN Network(h, w) + Ln(OosShare(v, w))
             ELSE IF u.has THEN u.x ELSE Network(h, w)
        ELSE IF Has(v, w) /\ InShort(v, w) THEN Network(h, w)
             ELSE IF u.has THEN u.x ELSE Network(h, w)
TraceEndScore(h) == Network(h, EOS)
TraceEndWord == EOS

-----------------------------------------------------------------------------
Lat == [n |-> Ev.lat.n, links |-> Ev.lat.links, init |-> Ev.lat.init,
        finals |-> Elems(Ev.lat.finals), time |-> Ev.lat.time]
Opt == LET o == Case.opt IN
    [weight |-> o.weight, order |-> o.order, max |-> o.max, beam |-> o.beam,
     scale |-> IF o.hasscale THEN o.scale ELSE IF Ev.lat.hasscale THEN Ev.lat.scale ELSE 1,
     wip |-> IF o.haswip THEN o.wip ELSE IF Ev.lat.haswip THEN Ev.lat.wip ELSE 0,
     divider |-> IF o.extra = 0 THEN 1 ELSE (Cardinality(Reachable(Lat)) \div o.extra) + 1,
     minbeam |-> IF o.extra = 0 THEN 0 ELSE o.minbeam,
     minmax |-> IF o.extra = 0 THEN 0 ELSE o.minmax]

\* The whole run, and whether it hangs on a difference that is too small.
Near(o, s) == \E i \in 1..(Len(s) - 1) : s[i] # s[i + 1] /\ Abs(Total4(o, s[i]) - Total4(o, s[i + 1])) <= Tie
Run(lat, o) ==
    LET ord == Order(lat)
        NoBest == -2000000000
        best0 == [x \in Nodes(lat) |-> IF x = lat.init THEN Total4(o, Start) ELSE NoBest]
        toks0 == [x \in Nodes(lat) |-> IF x = lat.init THEN <<Start>> ELSE <<>>]
        step(S, i) ==
            LET x == ord[i]
                b == FoldLeft(LAMBDA m, j : MaxOf2(m, S.best[ord[j]]), NoBest, [j \in 1..(Len(ord) - i + 1) |-> i + j - 1])
                kept == Kept(o, S.toks[x])
                here == TLCEval(Limited(o, InBeam(o, kept, b)))
                out == Out(lat, x)
                to(y) == FlattenSeq([g \in DOMAIN out |->
                            IF out[g].e = y THEN [j \in DOMAIN here |-> Follow(here[j], out[g])] ELSE <<>>])
                new == TLCEval([y \in Nodes(lat) |-> to(y)])
                gone == TLCEval(IF LogDrops THEN Dropped(o, S.toks[x]) ELSE <<>>)
            IN  TLCEval([toks |-> [y \in Nodes(lat) |-> IF y = x THEN here ELSE S.toks[y] \o new[y]],
                 best |-> [y \in Nodes(lat) |-> FoldLeft(LAMBDA m, t : MaxOf2(m, Total4(o, t)), S.best[y], new[y])],
                 drops |-> S.drops \o [j \in DOMAIN gone |-> [t |-> gone[j].t, k |-> gone[j].k, x |-> x]],
                 fin |-> IF x \in lat.finals THEN S.fin \o [j \in DOMAIN here |-> Finish(here[j])] ELSE S.fin,
                 amb |-> \/ S.amb
                         \/ Near(o, Sorted(o, S.toks[x]))
                         \/ o.beam # NoLimit /\ \E j \in DOMAIN kept : Abs(Total4(o, kept[j]) - (b - Beam4(o))) <= Tie])
    IN  FoldLeft(step, [toks |-> toks0, best |-> best0, fin |-> <<>>, drops |-> <<>>, amb |-> FALSE], [i \in 1..Len(ord) |-> i])

SameScores(x, y) == Abs(x.a - y.a) <= Tol /\ Abs(x.m - y.m) <= Tol /\ Abs(x.n - y.n) <= Tol
\* The words of a hypothesis begin and end the sentence.
Bare(tok) == SubSeq(tok.h, 2, Len(tok.h))
Tok(tok) == [h |-> Bare(tok), a |-> tok.a, m |-> tok.m, n |-> tok.n]
LmScore4(o, tok) == o.weight * tok.n + (4 - o.weight) * tok.m
GraphOk(o, tok) == IF Case.linear
                   THEN Abs(tok.g - o.scale * tok.lin - o.wip * (Len(tok.h) - 1)) <= Tol
                   ELSE Abs(4 * tok.g - o.scale * LmScore4(o, tok) - 4 * o.wip * (Len(tok.h) - 1)) <= 4 * Tol

TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ st = "ok" /\ v = Build

TDecode ==
    /\ Ev.a = "decode"
    \* Values are bound by quantifiers so that each is computed once.
    /\ \E o \in {Opt}, lat \in {Lat} :
       \E all \in {AllTokens(lat)}, run \in {Run(lat, o)} :
       \E fin \in {Kept(o, run.fin)}, amb \in {run.amb \/ Near(o, Sorted(o, run.fin))} :
       LET R == Ev.toks
           D == DOMAIN R
           nolimits == o.max = NoLimit /\ o.beam = NoLimit /\ o.order = 0
           exact == ~Case.linear /\ (o.beam = NoLimit \/ (DistinctTimes(lat) /\ TimesForward(lat)))
       IN  st' = First(<<
             <<"nothing-found", Len(R) >= 1>>,
             <<"sentence-marks", \A i \in D : Len(R[i].h) >= 2 /\ R[i].h[1] = SOS /\ R[i].h[Len(R[i].h)] = EOS>>,
             <<"not-a-path", \A i \in D : \E t \in all : t.h = Bare(R[i])>>,
             <<"path-scores", \A i \in D : \E t \in all : t.h = Bare(R[i]) /\ SameScores(t, R[i])>>,
             <<"graph-score", \A i \in D : GraphOk(o, R[i])>>,
             <<"total-score", \A i \in D : Abs(R[i].t - R[i].a - R[i].g) <= Tol>>,
             <<"not-sorted", \A i \in 1..(Len(R) - 1) : R[i].t >= R[i + 1].t - Tol>>,
             <<"duplicate", \A i, j \in D : i # j => ~SameKey(o, Tok(R[i]), Tok(R[j]))>>,
             <<"sequence-missing", nolimits => {Bare(R[i]) : i \in D} = {t.h : t \in all}>>,
             <<"not-the-best-path", nolimits /\ ~Case.linear =>
                   \A i \in D : \A t \in all : t.h = Bare(R[i]) => Total4(o, t) <= Total4(o, Tok(R[i])) + 8 * Tol * MaxOf2(1, o.scale)>>,
             <<"hypotheses", exact => (amb \/ (Len(R) = Len(fin) /\ \A i \in D : Bare(R[i]) = fin[i].h /\ SameScores(R[i], fin[i])))>> >>)
    /\ Report(st') /\ UNCHANGED v

TOther == /\ Ev.a # "decode" /\ st' = "exception" /\ Report(st') /\ UNCHANGED v

TraceNext == st = "ok" /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c /\ (TDecode \/ TOther)
=============================================================================
