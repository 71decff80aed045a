----------------------------- MODULE TextScore -----------------------------
(* Scores of words and sentences, given a vocabulary and the class          *)
(* probabilities predicted by a network.                                    *)
(*                                                                          *)
(* A setting is [short |-> <unk> is distributed among the out-of-shortlist  *)
(* words, excl |-> unknown words are excluded].                             *)
EXTENDS Vocab

\* Words of the text that are not in the vocabulary are the unknown word.
Excluded(v, set, w) ==
    \/ w = UNK /\ (set.short \/ set.excl)
    \/ ~InShort(v, w) /\ set.excl

\* The factors of the class probability in the probability of a word.
Factor(v, set, w) ==
    LET m == Member(v, w)
        s == IF set.short THEN OosShare(v, w) ELSE <<1, 1>>
    IN  <<m[1] * s[1], m[2] * s[2]>>

\* Words that are never found in the training data have no probability inside
\* their class, and do not count in totals.
Counts(v, set, w) == ~Excluded(v, set, w) /\ Member(v, w)[1] > 0

\* The first word of a sentence is not predicted.
Predicted(s) == SubSeq(s, 2, Len(s))
NumCounted(v, set, s) == Cardinality({i \in 2..Len(s) : Counts(v, set, s[i])})
=============================================================================
