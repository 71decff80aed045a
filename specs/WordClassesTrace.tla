-------------------------- MODULE WordClassesTrace --------------------------
(* Validates recorded class optimizations.  A case gives the text (words of *)
(* each sentence), the words of the vocabulary, and X as a table in units   *)
(* of 0.00001.                                                              *)
(*   start     the first classes, likelihood, and membership probabilities  *)
(*   step      one word was offered for moving                              *)
(*   move      a word was moved to a given class                            *)
(*   evaluate  predicted gains of moves                                     *)
(*   write     classes written to a file and read from it                   *)
(*   tool      the class tool was run: its output was read                  *)
(*   schedule  after how many words of an iteration classes are saved       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

VARIABLES c, l, st, m

Cases == JsonDeserialize("cases.json")
Case == Cases[c]
Ev == Case.ev[l]
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)
Abs(x) == IF x < 0 THEN -x ELSE x

Xs(n) == Case.x[n + 1]
M == INSTANCE WordClasses WITH X <- Xs

Known == ToSet(Case.words)
Special == {w \in Known : w \in {"<s>", "</s>", "<unk>"}}
\* A sentence with its markers, unknown words replaced.
Sentence(s) == <<"<s>">> \o [i \in DOMAIN s |-> IF s[i] \in Known THEN s[i] ELSE "<unk>"] \o <<"</s>">>
Pairs(t) == FlattenSeq([i \in DOMAIN t |-> [j \in 1..(Len(t[i]) - 1) |-> <<t[i][j], t[i][j + 1]>>]])
CountIn(seq, x) == Cardinality({i \in DOMAIN seq : seq[i] = x})
Bigrams(t) == LET p == TLCEval(Pairs(t)) IN
              [i \in DOMAIN SetToSeq(ToSet(p)) |->
                 LET x == SetToSeq(ToSet(p))[i] IN [l |-> x[1], r |-> x[2], n |-> CountIn(p, x)]]
Unigrams(t) == LET f == TLCEval(FlattenSeq(t)) IN [w \in Known |-> CountIn(f, w)]

\* cls is recorded as a sequence in the order of the words.
Assign(seq) == [w \in Known |-> seq[CHOOSE i \in DOMAIN Case.words : Case.words[i] = w]]
ClassesOf(cls) == {cls[w] : w \in Known}
C == 0..(Case.classes - 1)
Tol == 200
LL(cls) == M!LikelihoodOf(m.U, m.B, cls, C)
LikelihoodRight(x, cls) == Abs(x - LL(cls)) <= Tol
\* probs[i]: 100000 * membership probability of word i.
ProbsRight(probs, U, cls) ==
    \A i \in DOMAIN Case.words : LET w == Case.words[i]
                                     n == M!Sum(U, {v \in Known : cls[v] = cls[w]}) IN
        n > 0 => Abs(probs[i] * n - 100000 * U[w]) <= 2 * n
\* No word has joined the class of a special token.
Kept(old, new) == \A w \in Special : \A v \in Known : new[v] = new[w] => old[v] = old[w]

TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ st = "ok" /\ m = [U |-> <<>>, B |-> <<>>, cls |-> <<>>]

TStart ==
    /\ Ev.a = "start"
    /\ \E t \in {[i \in DOMAIN Case.text |-> Sentence(Case.text[i])]} :
       \E u \in {Unigrams(t)} : \E b \in {Bigrams(t)} : \E cls \in {Assign(Ev.cls)} :
         /\ m' = [U |-> u, B |-> b, cls |-> cls]
         /\ st' = First(<<
               <<"every-word-has-a-class", Len(Ev.cls) = Len(Case.words) /\ \A w \in Known : cls[w] \in C>>,
               <<"likelihood", Abs(Ev.ll - M!LikelihoodOf(u, b, cls, C)) <= Tol>>,
               <<"membership-probabilities", ProbsRight(Ev.probs, u, cls)>> >>)
    /\ Report(st')

\* Gains of all moves of a word.
Gains(cls, w) == [k \in M!Targets(cls, Special, C, w) |-> LL([cls EXCEPT ![w] = k]) - LL(cls)]
Stuck(cls, w) == M!Movable(cls, Special, w) =>
                 \E g \in {Gains(cls, w)} : \A k \in DOMAIN g : g[k] <= Tol

TStep ==
    /\ Ev.a = "step"
    /\ \E new \in {Assign(Ev.cls)} :
       LET w == Ev.w
           k == new[w]
           mine == m.cls IN
       /\ m' = [m EXCEPT !.cls = new]
       /\ \E g \in {IF M!Movable(mine, Special, w) THEN Gains(mine, w) ELSE <<>>} :
          st' = First(<<
            <<"others-moved", \A v \in Known : v # w => new[v] = mine[v]>>,
            <<"reported-move", Ev.moved = (k # mine[w])>>,
            <<"special-or-last-word-moved", k # mine[w] => M!Movable(mine, Special, w)>>,
            <<"moved-to-class", k # mine[w] => k \in M!Targets(mine, Special, C, w)>>,
            <<"worse-class", (k # mine[w] /\ k \in DOMAIN g) => g[k] > -Tol>>,
            <<"not-the-best-class", (k # mine[w] /\ k \in DOMAIN g) => \A j \in DOMAIN g : g[j] <= g[k] + Tol>>,
            <<"better-class-not-taken", k = mine[w] => \A j \in DOMAIN g : g[j] <= Tol>>,
            <<"likelihood", LikelihoodRight(Ev.ll, new)>>,
            <<"membership-probabilities", ProbsRight(Ev.probs, m.U, new)>> >>)
    /\ Report(st')

\* The update alone, whether the move is a good one or not.
TMove ==
    /\ Ev.a = "move"
    /\ \E new \in {Assign(Ev.cls)} :
       /\ m' = [m EXCEPT !.cls = new]
       /\ st' = First(<<
            <<"others-moved", \A v \in Known : v # Ev.w => new[v] = m.cls[v]>>,
            <<"likelihood", LikelihoodRight(Ev.ll, new)>>,
            <<"membership-probabilities", ProbsRight(Ev.probs, m.U, new)>> >>)
    /\ Report(st')

TEvaluate ==
    /\ Ev.a = "evaluate" /\ UNCHANGED m
    /\ \E g \in {Gains(m.cls, Ev.w)} :
       st' = First(<< <<"predicted-gain", \A i \in DOMAIN Ev.k :
                          Ev.k[i] \in DOMAIN g => (Ev.num[i] /\ Abs(Ev.gain[i] - g[Ev.k[i]]) <= Tol)>> >>)
    /\ Report(st')

SamePartition(a, b) == \A v, w \in Known : (a[v] = a[w]) <=> (b[v] = b[w])
TWrite ==
    /\ Ev.a = "write" /\ UNCHANGED m
    /\ st' = First(<<
         <<"written-words", Ev.known>>,
         <<"written-classes", Ev.known => SamePartition(Assign(Ev.cls), m.cls)>>,
         <<"written-probabilities", (Ev.known /\ Ev.hasprobs) => ProbsRight(Ev.probs, m.U, m.cls)>> >>)
    /\ Report(st')

TTool ==
    /\ Ev.a = "tool"
    /\ UNCHANGED m
    /\ \E new \in {IF Ev.known THEN Assign(Ev.cls) ELSE m.cls} :
       st' = First(<<
         <<"tool-words", Ev.known>>,
         <<"tool-special-classes", Kept(m.cls, new)>>,
         <<"tool-classes", Cardinality(ClassesOf(new)) = Cardinality(ClassesOf(m.cls))>>,
         <<"tool-likelihood", LL(new) >= LL(m.cls) - Tol>>,
         <<"tool-not-finished", \A w \in Known : Stuck(new, w)>> >>)
    /\ Report(st')

Least(a, b) == IF a < b THEN a ELSE b
TSchedule ==
    /\ Ev.a = "schedule" /\ UNCHANGED m
    /\ st' = First(<< <<"saves-in-an-iteration", Len(Ev.at) = Least(Ev.freq, Ev.words)>>,
                      <<"saved-in-the-end", Ev.freq >= 1 => Ev.words \in ToSet(Ev.at)>> >>)
    /\ Report(st')

TOther == /\ Ev.a \notin {"start", "step", "move", "evaluate", "write", "tool", "schedule"} /\ UNCHANGED m /\ st' = "exception" /\ Report(st')
TraceNext == st = "ok" /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c
             /\ (TStart \/ TStep \/ TMove \/ TEvaluate \/ TWrite \/ TTool \/ TSchedule \/ TOther)
=============================================================================
