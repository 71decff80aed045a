--------------------------- MODULE LatticeIOTrace ---------------------------
(* Validates lattices that were read from files, ordered and written.       *)
(* Scores in files are hundredths; ln(base) is in 0.00001, so meanings are  *)
(* in 0.0000001 and observations in 0.00001.  In linear files, a score k    *)
(* stands for the probability 1 / k.  Events:                               *)
(*   slf, kaldi    a file was read: a lattice or a rejection was observed   *)
(*   order         the nodes were ordered, or a cycle reported              *)
(*   again         the lattice was written and read again                   *)
EXTENDS LatticeIO, Json

VARIABLES c, l, st, want

Cases == JsonDeserialize("cases.json")
Case == Cases[c]
Ev == Case.ev[l]
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)
Abs(x) == IF x < 0 THEN -x ELSE x
Elems(s) == {s[i] : i \in DOMAIN s}
Tol == 2500

ScoreOf(x) == IF Case.linear THEN -100 * Case.ln[x] ELSE x * Case.lnbase
Slf == [Case.file EXCEPT !.ends = Elems(@)]
Wanted == IF Case.kind = "slf" THEN SlfMeaning(Slf, Elems(Case.nulls), ScoreOf)
          ELSE KaldiMeaning(Case.file, {"<eps>"}, {"#0", "<s>", "</s>"})
\* Kaldi scores are hundredths, too.
Unit(x) == IF Case.kind = "slf" THEN x ELSE 100000 * x
Header(x) == IF Case.linear THEN -100 * Case.ln[x] ELSE x * Case.lnbase

Obs(o) == [n |-> o.n, init |-> o.init, finals |-> Elems(o.finals), links |-> o.links,
           time |-> [x \in 1..o.n |-> o.time[x]]]
\* The same paths.
Close(p, q) == p[1] = q[1] /\ Abs(Unit(p[2]) - 100 * q[2]) <= Tol /\ Abs(Unit(p[3]) - 100 * q[3]) <= Tol
SamePaths(P, Q) == /\ \A p \in P : \E q \in Q : Close(p, q)
                   /\ \A q \in Q : \E p \in P : Close(p, q)
\* The transitions of the paths.
TrPaths(lat) ==
    LET ord == Order(lat)
        step(T, x) == FoldLeft(LAMBDA U, k : [U EXCEPT ![k.e] = @ \cup {IF k.tr = "" THEN p ELSE Append(p, k.tr) : p \in T[x]}],
                               T, Out(lat, x))
        end == FoldLeft(step, [x \in Nodes(lat) |-> IF x = lat.init THEN {<<>>} ELSE {}], ord)
    IN  UNION {end[x] : x \in lat.finals \cap Reachable(lat)}
Times(lat) == {lat.time[x] : x \in Reachable(lat)}
FinalOk(lat) == \A x \in lat.finals : x \in 1..lat.n

TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ st = "ok" /\ want = Wanted

Compare(o) ==
    IF o.rejected THEN << <<"file-rejected", FALSE>> >>
    ELSE << <<"cycle-appeared", Cyclic(Obs(o)) = Cyclic(want)>>,
            <<"paths", Cyclic(want) \/ SamePaths(Paths(want), Paths(Obs(o)))>>,
            <<"transitions", Cyclic(want) \/ Case.kind = "slf" \/ Ev.what = "slf" \/ TrPaths(want) = TrPaths(Obs(o))>> >>

TRead ==
    /\ Ev.a = "read"
    /\ st' = IF IsRejected(want) THEN First(<< <<"bad-file-accepted", Ev.obs.rejected>> >>)
             ELSE First(Compare(Ev.obs) \o (IF Ev.obs.rejected THEN <<>> ELSE
                << <<"times", Case.kind = "kaldi" \/ Times(want) = Times(Obs(Ev.obs))>>,
                   <<"utterance", Ev.obs.utt = Case.utt>>,
                   <<"language-model-scale", IF Case.lmscale = 0 THEN Ev.obs.scale = 0
                                             ELSE Abs(Ev.obs.scale - Case.lmscale * 1000) <= 2>>,
                   <<"word-insertion-penalty", IF Case.wip = 0 THEN Ev.obs.wip = 0
                                               ELSE Abs(Header(Case.wip) - 100 * Ev.obs.wip) <= Tol>> >>))
    /\ Report(st') /\ UNCHANGED want

TOrder ==
    /\ Ev.a = "order"
    /\ st' = First(<< <<"cycle-not-rejected", Cyclic(want) => Ev.rejected>>,
                      <<"acyclic-rejected", Ev.rejected => Cyclic(want)>>,
                      <<"order", Ev.rejected \/ IsOrder([want EXCEPT !.links = Ev.links, !.init = Ev.init, !.n = Ev.n], Ev.ord)>>,
                      <<"earliest-first", Ev.rejected \/ Case.kind = "kaldi" \/
                            EarliestFirst([want EXCEPT !.links = Ev.links, !.init = Ev.init, !.n = Ev.n, !.time = Ev.time], Ev.ord)>> >>)
    /\ Report(st') /\ UNCHANGED want

TAgain ==
    /\ Ev.a = "again"
    /\ st' = First(Compare(Ev.obs) \o << <<"utterance-lost", Ev.obs.rejected \/ Ev.obs.utt = Case.utt>>,
                  <<"settings-lost", Ev.obs.rejected \/ Ev.what = "kaldi" \/
                        (Ev.obs.scale = Ev.before.scale /\ Abs(Ev.obs.wip - Ev.before.wip) <= 2)>>,
                  <<"times-lost", Ev.obs.rejected \/ Ev.what = "kaldi" \/ Cyclic(want) \/ Times(Obs(Ev.obs)) = Times(Obs(Ev.before))>> >>)
    /\ Report(st') /\ UNCHANGED want

\* A long chain of nodes.
TChain ==
    /\ Ev.a = "chain"
    /\ st' = First(<< <<"long-lattice-rejected", ~Ev.rejected>>,
                      <<"long-lattice", Ev.rejected \/ (Ev.inorder /\ Ev.words = Ev.n - 1)>> >>)
    /\ Report(st') /\ UNCHANGED want

TOther == /\ Ev.a \notin {"read", "order", "again", "chain"} /\ st' = "exception" /\ Report(st') /\ UNCHANGED want

TraceNext == st = "ok" /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c
             /\ (TRead \/ TOrder \/ TAgain \/ TChain \/ TOther)
=============================================================================
