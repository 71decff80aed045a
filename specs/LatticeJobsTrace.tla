-------------------------- MODULE LatticeJobsTrace --------------------------
(* Validates recorded jobs.  A case gives the lines of the lattice list,    *)
(* the lattices of each file (Kaldi: its lines), and the number of jobs.    *)
(*   job     the lattices that a job read: name and word of each            *)
(*   decode  what the decode command wrote: for each lattice the hypotheses *)
(*           of the decoder, and the lines or lattices written              *)
(* Scores are in units of 0.00001.                                          *)
EXTENDS LatticeJobs, Json

VARIABLES c, l, st

Cases == JsonDeserialize("cases.json")
Case == Cases[c]
Ev == Case.ev[l]
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)
Abs(x) == IF x < 0 THEN -x ELSE x
Tol == 40

InFile(name) == LET f == Case.files[CHOOSE i \in DOMAIN Case.files : Case.files[i].name = name] IN
    IF Case.kaldi
    THEN LET a == Archive(f.lines) IN [i \in DOMAIN a |-> [utt |-> a[i][1].utt, w |-> a[i][1].w]]
    ELSE << [utt |-> f.utt, w |-> f.w] >>
Expected(job) == LET p == JobPaths(Paths(Case.list), Case.jobs, job)
                 IN  FlattenSeq([i \in DOMAIN p |-> InFile(p[i])])

TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ st = "ok"

TJob ==
    /\ Ev.a = "job"
    /\ st' = First(<< <<"arguments-changed", ~Ev.changed>>,
                      <<"job-lattices", Ev.got = Expected(Ev.job)>>,
                      <<"read-twice", Ev.again = Expected(Ev.job)>> >>)
    /\ Report(st')

\* A printed score is in base B: x * ln(B) is the score.
Near(x, y) == Abs(x - y) <= Tol
Based(x, y) ==
    IF Case.lnbase = 1000 THEN Near(x, y)
    ELSE Abs(Case.lnbase * (x \div 100) - 10 * y) <= 30000 + (Abs(10 * y) \div 100)
SameLine(g, e) ==
    /\ g.utt = e.utt
    /\ g.w = e.t.h
    /\ Case.output = "full" => Based(g.a, e.t.a) /\ Based(g.g, e.t.g) /\ Based(g.t, e.t.t) /\ g.n = Len(e.t.h)

TDecode ==
    /\ Ev.a = "decode"
    /\ LET want == OutputLines(Ev.lats, Case.nbest)
           names == [i \in DOMAIN Ev.lats |-> Ev.lats[i].utt]
       IN  st' = First(<<
             <<"decoded-lattices", names = [i \in DOMAIN Expected(Ev.job) |-> Expected(Ev.job)[i].utt]>>,
             <<"number-of-lines", Len(Ev.lines) = Len(want)>>,
             <<"lines", Len(Ev.lines) # Len(want) \/ \A i \in DOMAIN want : SameLine(Ev.lines[i], want[i])>> >>)
    /\ Report(st')

\* Rescored lattices: a lattice for each, with the hypotheses among its paths.
TRescore ==
    /\ Ev.a = "rescore"
    /\ LET n == Len(Ev.lats) IN
       st' = First(<<
         <<"decoded-lattices", [i \in 1..n |-> Ev.lats[i].utt] = [i \in DOMAIN Expected(Ev.job) |-> Expected(Ev.job)[i].utt]>>,
         <<"written-lattices", [i \in 1..Len(Ev.outs) |-> Ev.outs[i].utt] = [i \in 1..n |-> Ev.lats[i].utt]>>,
         <<"hypotheses", \A i \in 1..n : i > Len(Ev.outs) \/
               \A j \in DOMAIN Ev.lats[i].toks : \E k \in DOMAIN Ev.outs[i].paths :
                  Ev.outs[i].paths[k] = Ev.lats[i].toks[j].h>>,
         <<"language-model-scale", \A i \in 1..n : i > Len(Ev.outs) \/ Case.output = "kaldi" \/
               LET s == Setting(Case.scale, Ev.lats[i].scale) IN
               Ev.outs[i].scale.has = s.has /\ Near(Ev.outs[i].scale.x, s.x)>>,
         <<"word-insertion-penalty", \A i \in 1..n : i > Len(Ev.outs) \/ Case.output = "kaldi" \/
               LET s == Setting(Case.wip, Ev.lats[i].wip) IN
               Ev.outs[i].wip.has = s.has /\ Near(Ev.outs[i].wip.x, s.x)>> >>)
    /\ Report(st')

TOther == /\ Ev.a \notin {"job", "decode", "rescore"} /\ st' = "exception" /\ Report(st')
TraceNext == st = "ok" /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c /\ (TJob \/ TDecode \/ TRescore \/ TOther)
=============================================================================
