------------------------------ MODULE VocabGen ------------------------------
(* All small vocabulary files (lines with classes and weights, repeated      *)
(* words included), out-of-shortlist words and formats.                      *)
EXTENDS Vocab, Json

CONSTANTS Words, Labels

VARIABLES x

Lines == [w : Words, label : Labels, weight : {1, 3}]
Files == UNION {[1..n -> Lines] : n \in 0..2}
Init == x \in [lines : Files, oos : SUBSET Words, fmt : {"words", "classes", "srilm-classes"}]
Next == UNCHANGED x /\ FALSE
Emit == PrintT("SCN " \o ToJson([lines |-> x.lines, oos |-> SetToSeq(x.oos), fmt |-> x.fmt]))
=============================================================================
