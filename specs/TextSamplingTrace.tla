-------------------------- MODULE TextSamplingTrace --------------------------
(* Validates recorded samples.  The probabilities are those of the network  *)
(* reading the words of one sequence from its start.                        *)
(*   generate  seed, length, number; the words of each sequence, the        *)
(*             words of the vocabulary, and at each sampled word its        *)
(*             probability: 100 * log10                                     *)
(*   count     how often outcomes occurred among n draws, and the expected  *)
(*             numbers                                                      *)
(*   command   lines written by the sample command                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

VARIABLES c, l, st

Cases == JsonDeserialize("cases.json")
Case == Cases[c]
Ev == Case.ev[l]
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)
M == INSTANCE TextSampling WITH Start <- "<s>", Sup <- LAMBDA h : {}, Mem <- LAMBDA k : {}

TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ st = "ok"

\* Rounding may let an impossible word through, once in millions.
Impossible == -1500
Few(lp) == Cardinality({x \in {<<i, j>> : i \in DOMAIN lp, j \in 1..40} :
                           x[2] \in DOMAIN lp[x[1]] /\ lp[x[1]][x[2]] < Impossible}) <= 1

TGenerate ==
    /\ Ev.a = "generate"
    /\ st' = First(<<
         <<"number-of-sequences", Len(Ev.seqs) = Ev.number>>,
         <<"length", \A i \in DOMAIN Ev.seqs : Len(Ev.seqs[i]) = M!Total(Ev.length, Ev.seed)>>,
         <<"seed", \A i \in DOMAIN Ev.seqs : M!Begins(Ev.seqs[i], Ev.seed)>>,
         <<"words", \A i \in DOMAIN Ev.seqs : \A t \in DOMAIN Ev.seqs[i] : Ev.seqs[i][t] \in ToSet(Case.words)>>,
         <<"impossible-word", Few(Ev.lp)>> >>)
    /\ Report(st')

TCount ==
    /\ Ev.a = "count"
    /\ st' = First(<<
         <<"distribution", \A i \in DOMAIN Ev.x : M!Plausible(Ev.x[i], Ev.e[i], Ev.n)>>,
         <<"joint-distribution", \A i \in DOMAIN Ev.px : M!Plausible(Ev.px[i], Ev.pe[i], Ev.n \div 2)>> >>)
    /\ Report(st')

TCommand ==
    /\ Ev.a = "command"
    /\ st' = First(<<
         <<"number-of-lines", Len(Ev.lines) = Ev.number>>,
         <<"line-length", \A i \in DOMAIN Ev.lines :
               M!WrittenRight(Ev.lines[i], M!Total(Ev.length, Ev.seed), "</s>")>>,
         <<"line-seed", \A i \in DOMAIN Ev.lines : M!Begins(Ev.lines[i], Ev.seed)>>,
         <<"line-impossible-word", Few(Ev.lp)>>,
         <<"not-reproducible", Ev.again = Ev.lines>> >>)
    /\ Report(st')

TOther == /\ Ev.a \notin {"generate", "count", "command"} /\ st' = "exception" /\ Report(st')
TraceNext == st = "ok" /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c /\ (TGenerate \/ TCount \/ TCommand \/ TOther)
=============================================================================
