--------------------------- MODULE SubwordsTrace ---------------------------
(* Validates recorded merging (merge events) and outputs of the score       *)
(* command.  A case of the command gives the marking, the kind of output,   *)
(* the logarithm of the log base (in millionths) and the vocabulary         *)
(* (short, oos word sets).  Events:                                         *)
(*   merge  units were merged                                               *)
(*   unit   a sentence with the scores the scorer gives to its units        *)
(*   sent   the word scores printed for the next sentence                   *)
(*   utt    a score printed for the next sentence                           *)
(*   stats  the summary that was printed                                    *)
(*   wrote  counts of words and unknown words in the log                    *)
EXTENDS Subwords, Json

VARIABLES c, l, st, text, pos

Cases == JsonDeserialize("cases.json")
Case == Cases[c]
Ev == Case.ev[l]
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)
Abs(x) == IF x < 0 THEN -x ELSE x
Elems(s) == {s[i] : i \in 1..Len(s)}

Close(a, b, tol) == a.k = b.k /\ (a.k = "v" => Abs(a.x - b.x) <= tol)
AllClose(p, q, tol) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Close(p[i], q[i], tol)

TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ st = "ok" /\ text = <<>> /\ pos = 1

TMerge ==
    /\ Ev.a = "merge"
    /\ LET w == MergedWords(Ev.units, Ev.flags, Ev.marking)
           x == MergedScores(Ev.units, Ev.scores, Ev.flags, Ev.marking)
       IN  st' = First(<< <<"merged-words", Ev.words = w>>,
                          <<"merged-scores", AllClose(Ev.lps, x, 2 + Len(Ev.units))>> >>)
    /\ Report(st') /\ UNCHANGED <<text, pos>>

TUnit == /\ Ev.a = "unit" /\ st' = "ok" /\ UNCHANGED pos
         /\ text' = Append(text, [units |-> Ev.units, r |-> Ev.scores,
                                  w |-> MergedWords(Ev.units, Ev.flags, Case.marking),
                                  x |-> MergedScores(Ev.units, Ev.scores, Ev.flags, Case.marking)])

\* Scores are written in the requested base: x / base.
InBase(p, x) == p.k = x.k /\ (x.k = "v" => Abs((p.x \div 1000) * (Case.base \div 1000) - x.x) <= 3000 + (Abs(x.x) \div 100))
Exactly(p, x) == p.k = x.k /\ (x.k = "v" => Abs(p.x - x.x) <= 30)

Info(u) == IF u \in Elems(Case.short) THEN "shortlist" ELSE IF u \in Elems(Case.oos) THEN "OOS" ELSE "OOV"

\* The words printed of the history: the three latest ones.
HistoryWords(w, n) == FlattenSeq(SubSeq(w, IF n > 3 THEN n - 2 ELSE 1, n))
History(w, n) == (IF n > 3 THEN << "..." >> ELSE <<>>) \o HistoryWords(w, n)

TSent ==
    /\ Ev.a = "sent"
    /\ LET t == text[pos]
           sum == SumIn(t.x)
           num == NumOf(t.x, "v")
       IN  st' = IF pos > Len(text) THEN "sentence-added" ELSE First(<<
               <<"sentence-number", Ev.number = pos>>,
               <<"number-of-word-scores", Len(Ev.lines) = Len(t.x)>>,
               <<"predicted-words", Len(Ev.lines) # Len(t.x) \/ \A i \in 1..Len(t.x) : Ev.lines[i].w = t.w[i + 1]>>,
               <<"histories", Len(Ev.lines) # Len(t.x) \/ \A i \in 1..Len(t.x) : Ev.lines[i].h = History(t.w, i)>>,
               <<"vocabulary-information", Len(Ev.lines) # Len(t.x) \/ \A i \in 1..Len(t.x) :
                    Ev.lines[i].info = [j \in 1..Len(t.w[i + 1]) |-> Info(t.w[i + 1][j])]>>,
               <<"word-scores", Len(Ev.lines) # Len(t.x) \/ \A i \in 1..Len(t.x) :
                    IF Case.base = 1000000 THEN Exactly(Ev.lines[i].p, t.x[i]) ELSE InBase(Ev.lines[i].p, t.x[i])>>,
               <<"sentence-perplexity", IF num = 0 THEN ~Ev.hasppl
                    ELSE Ev.hasppl /\ Abs(Ev.lnppl * num + sum) <= 40 * num>> >>)
    /\ pos' = pos + 1
    /\ Report(st') /\ UNCHANGED text

\* Total of a sentence: what is excluded or impossible is left out.
TUtt == /\ Ev.a = "utt"
        /\ LET p == [k |-> "v", x |-> Ev.x]
               x == [k |-> "v", x |-> SumIn(text[pos].r)] IN
           st' = IF pos > Len(text) THEN "utterance-added"
                 ELSE First(<< <<"utterance-score", IF Case.base = 1000000 THEN Exactly(p, x) ELSE InBase(p, x)>> >>)
        /\ pos' = pos + 1
        /\ Report(st') /\ UNCHANGED text

Over(f(_)) == FoldLeft(LAMBDA a, t : a + f(t), 0, text)
TStats ==
    /\ Ev.a = "stats"
    /\ LET num == Over(LAMBDA t : NumOf(t.x, "v"))
           sum == Over(LAMBDA t : SumIn(t.x))
       IN  st' = First(<<
               <<"sentences-missing", Case.kind # "word-scores" \/ pos = Len(text) + 1>>,
               <<"number-of-sentences", Ev.sentences = Len(text)>>,
               <<"number-of-words", Ev.words = Over(LAMBDA t : Len(t.w))>>,
               <<"number-of-tokens", Ev.tokens = Over(LAMBDA t : Len(t.units))>>,
               <<"number-of-probabilities", Ev.probs = num>>,
               <<"number-of-excluded-words", Ev.unks = Over(LAMBDA t : NumOf(t.x, "none"))>>,
               <<"number-of-zero-probabilities", Ev.zeros = Over(LAMBDA t : NumOf(t.x, "zero"))>>,
               <<"cross-entropy", IF num = 0 THEN ~Ev.hasppl ELSE Ev.hasppl /\ Abs(Ev.ce * num + sum) <= 40 * num>>,
               <<"perplexity", num = 0 \/ Abs(Ev.lnppl - Ev.ce) <= 3>>,
               <<"cross-entropy-in-base", num = 0 \/ Case.base = 1000000 \/
                    (Ev.hasbase /\ Abs((Ev.cebase \div 1000) * (Case.base \div 1000) - Ev.ce) <= 3000 + (Ev.ce \div 100))>> >>)
    /\ Report(st') /\ UNCHANGED <<text, pos>>

TWrote == /\ Ev.a = "wrote"
          /\ st' = First(<< <<"utterances-missing", pos = Len(text) + 1>> >>)
          /\ Report(st') /\ UNCHANGED <<text, pos>>

TOther == /\ Ev.a \notin {"merge", "unit", "sent", "utt", "stats", "wrote"}
          /\ st' = "exception" /\ Report(st') /\ UNCHANGED <<text, pos>>

TraceNext == /\ st = "ok" /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c
             /\ (TMerge \/ TUnit \/ TSent \/ TUtt \/ TStats \/ TWrote \/ TOther)
=============================================================================
