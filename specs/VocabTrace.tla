----------------------------- MODULE VocabTrace -----------------------------
(* Validates recorded construction and use of vocabularies.  Events:        *)
(*   line   one line of a vocabulary file (word, class label, weight)       *)
(*   counts the occurrences that were found in the text of the case         *)
(*   build  the vocabulary was created (how "file": from the lines, oos;    *)
(*          how "counts": from the counts with nc classes, 0: one per word) *)
(*   probs  occurrences were counted (update: memberships too)              *)
(*   reload the vocabulary was written to a file and read back              *)
(*   ids    words were looked up;  member: word IDs' classes were looked up *)
(* build, probs and reload carry what is visible of the vocabulary (obs).   *)
(* Probabilities are in millionths.                                         *)
EXTENDS Vocab, Json

VARIABLES c, l, st, v, o        \* o: the observation, which fixes the word IDs

Cases == JsonDeserialize("cases.json")
Ev == Cases[c].ev[l]
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)

Abs(x) == IF x < 0 THEN -x ELSE x
\* p millionths are the fraction f.
Near(p, f) == Abs(p * f[2] - f[1] * 1000000) <= 2 * f[2]

\* What can be seen of a vocabulary u: words in the order of their IDs, the
\* shortlist size, classes.
Shape(b, u) == LET S == {b.words[i] : i \in 1..b.nshort} IN <<
    <<"word-ids-not-one-to-one", Cardinality(Elems(b.words)) = Len(b.words) /\ b.toid = [i \in 1..Len(b.words) |-> i - 1]>>,
    <<"words-differ", Elems(b.words) = Elems(u.words)>>,
    <<"shortlist-differs", S = {u.words[i] : i \in 1..NShort(u)}>>,
    <<"special-token-missing", Special \subseteq S>>,
    <<"class-per-shortlist-word", Len(b.cls) = b.nshort>>,
    <<"class-ids", Elems(b.cls) = 0..(b.nclasses - 1)>>,
    <<"shortlist-test", b.inshort = [i \in 1..Len(b.words) |-> i <= b.nshort]>> >>

\* Words are in the same class exactly if they have the same label.
SameClasses(b, u) ==
    \A i, j \in 1..b.nshort : (b.cls[i] = b.cls[j]) = (ClassOf(u, b.words[i]) = ClassOf(u, b.words[j]))

Memberships(b, u) == \A i \in 1..b.nshort : Near(b.member[i], Member(u, b.words[i]))
Unigrams(b, u) == \A i \in 1..Len(b.words) : Near(b.uni[i], Unigram(u, b.words[i]))
Shares(b, u) == OosTotal(u) > 0 =>
                   \A i \in 1..Len(b.words) : Near(b.share[i], OosShare(u, b.words[i]))
Priors(b, u) == ShortTotal(u) > 0 =>
                   \A i \in 1..b.nshort : Near(b.prior[b.cls[i] + 1], Prior(u, ClassOf(u, b.words[i])))

Probabilities(b, u) ==
    IF ~Cases[c].probs THEN <<>>
    ELSE << <<"class-membership", Memberships(b, u)>> >> \o
         (IF ~u.has \/ Total(u) = 0 THEN <<>>
          ELSE << <<"unigram-probability", Unigrams(b, u)>>,
                  <<"out-of-shortlist-share", Shares(b, u)>>,
                  <<"class-prior", Priors(b, u)>> >>)

Seen(b, u) == Shape(b, u) \o << <<"classes-differ", SameClasses(b, u)>> >> \o Probabilities(b, u)

\* Classes made from counts: the observed partition is adopted, if it has the
\* requested number of classes of even size, with the special tokens apart.
Adopt(b) == [words |-> b.words, cls |-> b.cls, wt |-> [i \in 1..b.nshort |-> 1],
             cnt |-> [i \in 1..Len(b.words) |-> 0], has |-> FALSE]
Normal(b) == {i \in 1..b.nshort : b.words[i] \notin Special}
Size(b, x) == Cardinality({i \in Normal(b) : b.cls[i] = x})
Even(b, nc) ==
    LET D == {b.cls[i] : i \in Normal(b)}
        n == Cardinality(Normal(b))
        want == IF nc = 0 \/ nc > n THEN n ELSE nc
    IN  /\ Cardinality(D) = want
        /\ \A x, y \in D : Size(b, x) - Size(b, y) <= 1
        /\ \A i \in (1..b.nshort) \ Normal(b) : \A j \in (1..b.nshort) \ {i} : b.cls[i] # b.cls[j]

NoSpecial(counts) == [w \in DOMAIN counts \ Special |-> counts[w]]
MadeWords(counts) == DOMAIN counts \cup Special

TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ st = "ok" /\ v = Empty /\ o = <<>>

TLine == /\ Ev.a = "line"
         /\ v' = AddWord(v, Ev.w, IF Ev.own THEN "own " \o Ev.w ELSE Ev.label, Ev.weight)
         /\ st' = "ok" /\ UNCHANGED o

TCounts ==
    /\ Ev.a = "counts"
    /\ LET want == TextCounts(Cases[c].text) IN
       st' = First(<< <<"word-counts", DOMAIN Ev.counts = DOMAIN want /\ \A w \in DOMAIN want : Ev.counts[w] = want[w]>> >>)
    /\ Report(st') /\ UNCHANGED <<v, o>>

Distinct == Cardinality(Elems(v.words)) = Len(v.words)

TBuild ==
    /\ Ev.a = "build" /\ Ev.how = "file"
    /\ IF Ev.rejected
       THEN st' = (IF Distinct THEN "vocabulary-refused" ELSE "ok") /\ UNCHANGED <<v, o>>
       ELSE LET u == FoldLeft(LAMBDA x, w : AddOos(x, w), AddSpecials(v), Ev.oos) IN
            IF ~Distinct THEN st' = "repeated-word-accepted" /\ UNCHANGED <<v, o>>
            ELSE st' = First(Seen(Ev.obs, u)) /\ v' = u /\ o' = <<Ev.obs>>
    /\ Report(st')

TMake ==
    /\ Ev.a = "build" /\ Ev.how = "counts"
    /\ LET b == Ev.obs
           u == Counted(Adopt(b), NoSpecial(Ev.counts), TRUE)
       IN  /\ st' = First(<< <<"words-differ", Elems(b.words) = MadeWords(Ev.counts)>>,
                             <<"shortlist-differs", b.nshort = Len(b.words)>>,
                             <<"number-or-size-of-classes", Even(b, Ev.nc)>> >> \o Seen(b, u))
           /\ v' = u /\ o' = <<b>>
    /\ Report(st')

TProbs ==
    /\ Ev.a = "probs"
    /\ LET u == Counted(v, Ev.counts, Ev.update) IN st' = First(Seen(Ev.obs, u)) /\ v' = u /\ o' = <<Ev.obs>>
    /\ Report(st')

TReload ==
    /\ Ev.a = "reload"
    /\ st' = First(<< <<"word-ids-changed", Ev.obs.words = o[1].words>>,
                      <<"classes-changed", Ev.obs.cls = o[1].cls /\ Ev.obs.nshort = o[1].nshort>>,
                      <<"probability-bits-changed", Ev.samebits>> >> \o Seen(Ev.obs, v))
    /\ Report(st') /\ UNCHANGED <<v, o>>

TIds ==
    /\ Ev.a = "ids"
    /\ st' = First(<< <<"word-id", \A i \in 1..Len(Ev.words) :
                          /\ Ev.ids[i] + 1 \in 1..Len(o[1].words)
                          /\ o[1].words[Ev.ids[i] + 1] = LookUp(v, Ev.words[i])>>,
                      <<"contains", Ev.known = [i \in 1..Len(Ev.words) |-> Has(v, Ev.words[i])]>> >>)
    /\ Report(st') /\ UNCHANGED <<v, o>>

ObsClass(w) == o[1].cls[CHOOSE i \in 1..o[1].nshort : o[1].words[i] = Stands(v, w)]
TMember ==
    /\ Ev.a = "member"
    /\ st' = First(<< <<"class-lookup", \A i \in 1..Len(Ev.ids) : Ev.cls[i] = ObsClass(o[1].words[Ev.ids[i] + 1])>>,
                      <<"membership-lookup", Cases[c].probs =>
                          \A i \in 1..Len(Ev.ids) : Near(Ev.probs[i], Member(v, o[1].words[Ev.ids[i] + 1]))>> >>)
    /\ Report(st') /\ UNCHANGED <<v, o>>

TOther == /\ Ev.a \notin {"line", "counts", "build", "probs", "reload", "ids", "member"}
          /\ st' = "exception" /\ Report(st') /\ UNCHANGED <<v, o>>

TraceNext == /\ st = "ok" /\ l <= Len(Cases[c].ev) /\ l' = l + 1 /\ UNCHANGED c
             /\ (TLine \/ TCounts \/ TBuild \/ TMake \/ TProbs \/ TReload \/ TIds \/ TMember \/ TOther)
=============================================================================
