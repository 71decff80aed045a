-------------------------- MODULE TextScoreTrace --------------------------
(* Validates recorded scoring.  A case gives the vocabulary (lines, oos,    *)
(* counts, and the observed identity of words and classes), the setting and *)
(* a network, either the stub defined here or a table of class              *)
(* probabilities.  Events:                                                  *)
(*   batch  sentences scored as a mini-batch: scores of each                *)
(*   line   a line of text was scored; seq: a sequence of word IDs          *)
(*   ppl    the perplexity of sentences was computed                        *)
(* A word score is [k |-> "v", p |-> probability in millionths, x |-> log   *)
(* probability in millionths], or k "none" (excluded) or "zero".            *)
EXTENDS TextScore, Json

VARIABLES c, l, st, v, lps, words, unks

Cases == JsonDeserialize("cases.json")
Case == Cases[c]
Ev == Case.ev[l]
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)
Abs(x) == IF x < 0 THEN -x ELSE x

Build == LET a == FoldLeft(LAMBDA x, y : AddWord(x, y.w, y.label, 1), Empty, Case.lines)
             b == FoldLeft(LAMBDA x, y : AddOos(x, y), AddSpecials(a), Case.oos)
         IN  IF Case.counted THEN Counted(b, Case.counts, TRUE) ELSE b
\* Distribution of the unknown word needs the occurrences.
Set == [short |-> Case.short /\ Case.counted, excl |-> Case.excl]

\* The stub network: word IDs and class IDs as observed.
WordId(w) == (CHOOSE i \in 1..Len(Case.words) : Case.words[i] = w) - 1
ClsId(w) == Case.cls[WordId(Stands(v, w)) + 1]
Stub(s, i) == LET h == SumOver(1..(i - 1), LAMBDA j : 3 * WordId(Stands(v, s[j])) + ClsId(s[j]) + 1)
              IN  100000 * (((h + 2 * ClsId(s[i])) % 7) + 1)
ClassProb(n, s, i) == IF Case.stub THEN Stub(s, i) ELSE Ev.cp[n][i - 1]

Known(s) == [i \in 1..Len(s) |-> LookUp(v, s[i])]
GoodScore(n, s, i, r) ==
    LET w == s[i]
        f == Factor(v, Set, w)
        p == ClassProb(n, s, i)
    IN  IF Excluded(v, Set, w) THEN r.k = "none"
        ELSE IF f[1] = 0 THEN r.k = "zero"
        ELSE r.k = "v" /\ Abs(r.p * f[2] - p * f[1]) <= 3 * f[2]

SumLp(s, r) == SumOver({i \in 1..Len(r) : r[i].k = "v"}, LAMBDA i : r[i].x)
NumLp(r) == Cardinality({i \in 1..Len(r) : r[i].k = "v"})

TraceInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ st = "ok" /\ lps = <<>> /\ words = 0 /\ unks = 0
             /\ v = Build

TBatch ==
    /\ Ev.a = "batch"
    /\ st' = First(<< <<"number-of-sequences", Len(Ev.scores) = Len(Ev.text)>>,
                      <<"number-of-scores", Len(Ev.scores) = Len(Ev.text) =>
                          \A n \in 1..Len(Ev.text) : Len(Ev.scores[n]) = Len(Ev.text[n]) - 1>>,
                      <<"excluded-words", Len(Ev.scores) = Len(Ev.text) =>
                          \A n \in 1..Len(Ev.text) : \A i \in 2..Len(Ev.text[n]) :
                             i - 1 <= Len(Ev.scores[n]) =>
                             (Ev.scores[n][i - 1].k = "none") = Excluded(v, Set, Known(Ev.text[n])[i])>>,
                      <<"word-probability", Len(Ev.scores) = Len(Ev.text) =>
                          \A n \in 1..Len(Ev.text) : \A i \in 2..Len(Ev.text[n]) :
                             i - 1 <= Len(Ev.scores[n]) => GoodScore(n, Known(Ev.text[n]), i, Ev.scores[n][i - 1])>> >>)
    /\ lps' = [s \in Elems(Ev.text) |-> Ev.scores[CHOOSE n \in 1..Len(Ev.text) : Ev.text[n] = s]] @@ lps
    /\ Report(st') /\ UNCHANGED <<v, words, unks>>

Tol(n) == 4 + 2 * n
\* A score of a sentence: the sum of what is counted.
SeqOk(s, x) == Abs(x - SumLp(s, lps[s])) <= Tol(Len(s))

TSeq == /\ Ev.a = "seq"
        /\ st' = First(<< <<"sequence-total", SeqOk(Ev.text, Ev.x)>> >>)
        /\ Report(st') /\ UNCHANGED <<v, lps, words, unks>>

TLine ==
    /\ Ev.a = "line"
    /\ LET s == Sentence(Ev.line) IN
       /\ st' = First(<< <<"empty-line-scored", (s = <<>>) = Ev.none>>,
                         <<"line-total", Ev.none \/ s = <<>> \/ SeqOk(s, Ev.x)>>,
                         <<"word-count", Ev.words = words + Len(s)>>,
                         <<"unknown-word-count", Ev.unks = unks + Cardinality({i \in 1..Len(s) : LookUp(v, s[i]) = UNK})>> >>)
       /\ words' = Ev.words /\ unks' = Ev.unks
    /\ Report(st') /\ UNCHANGED <<v, lps>>

TPpl ==
    /\ Ev.a = "ppl"
    /\ LET num == SumOver(1..Len(Ev.text), LAMBDA n : NumLp(lps[Ev.text[n]]))
           \* Long texts are summed in units of 1/10000.
           u == IF num < 60 THEN 1 ELSE 100
           sum == SumOver(1..Len(Ev.text), LAMBDA n : SumLp(Ev.text[n], lps[Ev.text[n]]) \div u)
       IN  st' = First(<< <<"perplexity-of-nothing", Ev.none = (num = 0)>>,
                          <<"perplexity", Ev.none \/ num = 0 \/ Abs((Ev.x \div u) * num + sum) <= (IF u = 1 THEN Tol(num) ELSE 6) * num>> >>)
    /\ Report(st') /\ UNCHANGED <<v, lps, words, unks>>

TOther == /\ Ev.a \notin {"batch", "seq", "line", "ppl"}
          /\ st' = "exception" /\ Report(st') /\ UNCHANGED <<v, lps, words, unks>>

TraceNext == /\ st = "ok" /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c
             /\ (TBatch \/ TSeq \/ TLine \/ TPpl \/ TOther)
=============================================================================
