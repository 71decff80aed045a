--------------------------- MODULE RescoredTrace ---------------------------
(* Validates recorded construction of lattices: an event is a determinized  *)
(* lattice, the hypotheses the decoder returned, and the lattice that was   *)
(* constructed, written and read back.  Links have the transition IDs tr.   *)
EXTENDS LatticeDecodeTrace, Rescored

Out1 == Ev.out
New == [n |-> Out1.n, links |-> Out1.links, init |-> Out1.init, finals |-> Elems(Out1.finals),
        time |-> [x \in 1..Out1.n |-> NoTime]]

\* The paths of a lattice, without the network.
PathsOf(lat) ==
    LET out == TLCEval([x \in Nodes(lat) |-> Out(lat, x)])
        go(p, k) == [h |-> IF k.w = Null THEN p.h ELSE Append(p.h, k.w), a |-> p.a + k.a, m |-> p.m + k.m,
                     tr |-> p.tr \o k.tr, x |-> k.e]
        step(S, i) ==
            IF S.open = <<>> THEN S
            ELSE TLCEval([done |-> S.done \o SelectSeq(S.open, LAMBDA p : p.x \in lat.finals),
                          open |-> FlattenSeq([j \in DOMAIN S.open |->
                                      [g \in DOMAIN out[S.open[j].x] |-> go(S.open[j], out[S.open[j].x][g])]])])
    IN  FoldLeft(step, [done |-> <<>>, open |-> << [h |-> <<>>, a |-> 0, m |-> 0, tr |-> <<>>, x |-> lat.init] >>],
                 [i \in 1..(lat.n + 1) |-> i]).done

\* Values are bound by quantifiers so that each is computed once.
TRescore ==
    /\ Ev.a = "rescore"
    /\ \E lat \in {Lat}, o \in {Opt} :
       \E all \in {AllTokens(lat)}, old \in {PathsOf(lat)}, run \in {Run(lat, o)} :
       \E cyc \in {~Ev.rejected /\ Cyclic(New)}, d \in {Dropped(o, run.fin)}, fin \in {Kept(o, run.fin)} :
       \E got \in {IF Ev.rejected \/ cyc THEN <<>> ELSE PathsOf(New)},
          drops \in {run.drops \o [i \in DOMAIN d |-> [t |-> d[i].t, k |-> d[i].k, x |-> 0]]} :
       \E pairs \in {Elems(old)}, words \in {{got[i].h : i \in DOMAIN got}},
          origin \in {[i \in DOMAIN got |-> {p \in Elems(old) : p.h = got[i].h}]},
          exact \in {[i \in DOMAIN got |-> {t \in all : NoEnd(t.h) = got[i].h}]},
          want \in {IF o.max # NoLimit \/ run.amb \/ Near(o, Sorted(o, run.fin)) \/ Case.linear
                        \/ (o.beam # NoLimit /\ ~(DistinctTimes(lat) /\ TimesForward(lat)))
                     THEN {} ELSE Completed(lat, fin, drops)} :
       LET R == Ev.toks
           nopruning == o.max = NoLimit /\ o.beam = NoLimit
           G == DOMAIN got
           Orig(i) == IF origin[i] = {} THEN got[i] ELSE CHOOSE p \in origin[i] : TRUE
       IN  st' = First(<<
             <<"harness", Determinized(lat)>>,
             <<"not-a-lattice", ~Ev.rejected>>,
             <<"cycle", ~cyc>>,
             <<"not-in-the-original", \A i \in G : origin[i] # {}>>,
             <<"duplicate-path", Cardinality(words) = Len(got)>>,
             <<"hypothesis-missing", \A i \in DOMAIN R : NoEnd(Bare(R[i])) \in words>>,
             <<"sequence-missing", nopruning => words = {p.h : p \in pairs}>>,
             <<"acoustic-score", \A i \in G : Abs(got[i].a - Orig(i).a) <= Tol>>,
             <<"transitions", \A i \in G : Ev.kaldi => got[i].tr = Orig(i).tr>>,
             <<"hypothesis-score", \A i \in DOMAIN R : \A j \in G : got[j].h = NoEnd(Bare(R[i])) =>
                   Abs(got[j].m - R[i].m - R[i].n) <= Tol>>,
             <<"language-model-score", o.order = 0 => \A i \in G : \E t \in exact[i] :
                   Abs(got[i].m - Orig(i).m - t.n) <= Tol>>,
             <<"recombined-paths", want # {} => words = {p.h : p \in want}>>,
             <<"recombined-scores", want # {} => \A i \in G : \A p \in want : p.h = got[i].h =>
                   Abs(got[i].m - Orig(i).m - p.n) <= Tol>> >>)
    /\ Report(st') /\ UNCHANGED v

ROther == /\ Ev.a # "rescore" /\ st' = "exception" /\ Report(st') /\ UNCHANGED v
RTraceNext == st = "ok" /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c /\ (TRescore \/ ROther)
=============================================================================
