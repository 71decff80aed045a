------------------------------- MODULE Vocab -------------------------------
(***************************************************************************)
(* Vocabularies: words, out-of-shortlist words, classes and probabilities. *)
(*                                                                         *)
(* A vocabulary v is the record                                            *)
(*   words   all words in the order they got their identity, shortlist     *)
(*           words first                                                   *)
(*   cls     the class of each shortlist word (any labels)                 *)
(*   wt      integer weights of the shortlist words: the membership        *)
(*           probability is the weight divided by the class total          *)
(*   cnt     how many times each word occurs in the training data          *)
(*   has     whether occurrences have been counted                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

SOS == "<s>"
EOS == "</s>"
UNK == "<unk>"
Special == {SOS, EOS, UNK}

Empty == [words |-> <<>>, cls |-> <<>>, wt |-> <<>>, cnt |-> <<>>, has |-> FALSE]

Elems(s) == {s[i] : i \in 1..Len(s)}
NShort(v) == Len(v.cls)
Has(v, w) == w \in Elems(v.words)
Id(v, w) == CHOOSE i \in 1..Len(v.words) : v.words[i] = w

\* A shortlist word with the label of its class; words without a class of
\* their own are labelled by themselves.
AddWord(v, w, label, weight) ==
    [v EXCEPT !.words = Append(@, w), !.cls = Append(@, label),
              !.wt = Append(@, weight), !.cnt = Append(@, 0)]

AddSpecial(v, w) == IF Has(v, w) THEN v ELSE AddWord(v, w, "class of " \o w, 1)
AddSpecials(v) == AddSpecial(AddSpecial(AddSpecial(v, SOS), EOS), UNK)

\* Out-of-shortlist words have no class.
AddOos(v, w) == IF Has(v, w) THEN v
                ELSE [v EXCEPT !.words = Append(@, w), !.cnt = Append(@, 0)]

SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)

-----------------------------------------------------------------------------
(* Looking up. *)

LookUp(v, w) == IF Has(v, w) THEN w ELSE UNK
InShort(v, w) == Id(v, w) <= NShort(v)
\* The shortlist word that stands for a word in prediction.
Stands(v, w) == IF InShort(v, w) THEN w ELSE UNK
ClassOf(v, w) == v.cls[Id(v, Stands(v, w))]
Members(v, label) == {i \in 1..NShort(v) : v.cls[i] = label}
ClassTotal(v, label) == SumOver(Members(v, label), LAMBDA i : v.wt[i])

-----------------------------------------------------------------------------
(* Probabilities, as pairs <<numerator, denominator>>. *)

Member(v, w) == LET i == Id(v, Stands(v, w)) IN <<v.wt[i], ClassTotal(v, v.cls[i])>>

Total(v) == SumOver(1..Len(v.words), LAMBDA i : v.cnt[i])
Unigram(v, w) == <<v.cnt[Id(v, w)], Total(v)>>

OosTotal(v) == SumOver((NShort(v) + 1)..Len(v.words), LAMBDA i : v.cnt[i])
OosShare(v, w) == IF InShort(v, w) THEN <<1, 1>> ELSE <<v.cnt[Id(v, w)], OosTotal(v)>>

ShortTotal(v) == SumOver(1..NShort(v), LAMBDA i : v.cnt[i])
Prior(v, label) == <<SumOver(Members(v, label), LAMBDA i : v.cnt[i]), ShortTotal(v)>>

\* Occurrences in the training data; update: also the membership weights.
CountOf(counts, w) == IF w \in DOMAIN counts THEN counts[w] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
Counted(v, counts, update) ==
    LET c == [i \in 1..Len(v.words) |-> CountOf(counts, v.words[i])]
        m == [i \in 1..NShort(v) |-> IF v.words[i] \in Special THEN Max2(c[i], 1) ELSE c[i]]
        tot(i) == SumOver(Members(v, v.cls[i]), LAMBDA j : m[j])
    IN  [v EXCEPT !.cnt = c, !.has = TRUE,
                  !.wt = IF ~update THEN @
                         ELSE [i \in 1..NShort(v) |-> IF tot(i) = 0 THEN 1 ELSE m[i]]]

-----------------------------------------------------------------------------
(* Occurrences in a text whose lines are sequences of words. *)

Sentence(line) ==
    IF line = <<>> THEN <<>>
    ELSE LET a == IF line[1] = SOS THEN line ELSE <<SOS>> \o line
         IN  IF a[Len(a)] = EOS THEN a ELSE Append(a, EOS)
Text(lines) == FlattenSeq([i \in 1..Len(lines) |-> Sentence(lines[i])])
TextCounts(lines) ==
    LET t == Text(lines) IN
    [w \in Elems(t) |-> Cardinality({i \in 1..Len(t) : t[i] = w})]
=============================================================================
