------------------------------ MODULE Subwords ------------------------------
(* Merging of subword units into words, with their scores, and the           *)
(* statistics that are reported about scored text.                           *)
(*                                                                           *)
(* A score is [k |-> "v", x |-> integer], or k "none" (excluded) or "zero"   *)
(* (no probability at all).                                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

None == [k |-> "none"]
Zero == [k |-> "zero"]
V(x) == [k |-> "v", x |-> x]

Plus(a, b) == IF a.k = "none" \/ b.k = "none" THEN None
              ELSE IF a.k = "zero" \/ b.k = "zero" THEN Zero
              ELSE V(a.x + b.x)
Total(r) == FoldLeft(LAMBDA a, b : Plus(a, b), V(0), r)

\* Unit i (from the second on: the first one is not predicted) has score r[i-1].
\* The words are described by the sets of unit positions they are made of.
BoundaryAt(s, i) == s[i] = "<w>"

\* Word boundaries: each word extends over its units and the boundary that
\* ends it.  A boundary that follows another one or the first unit ends no word.
StartsW(s, i) == i \in 2..Len(s) /\ ~BoundaryAt(s, i) /\ (i = 2 \/ BoundaryAt(s, i - 1))
EndOfW(s, i) == LET B == {j \in i..Len(s) : BoundaryAt(s, j)} IN IF B = {} THEN Len(s) ELSE Min(B)

\* Marked pieces: a unit ending in + and a following unit starting with + belong
\* together.
Joined(m, i) == m[i - 1].plusend /\ m[i].plusstart
StartsP(s, m, i) == i \in 2..Len(s) /\ (i = 2 \/ ~Joined(m, i))
EndOfP(s, m, i) == LET E == {j \in i..Len(s) : j = Len(s) \/ ~Joined(m, j + 1)} IN Min(E)

\* Segments <<first, last>> of the words after the first unit, in order.
Segments(s, m, marking) ==
    LET st == {i \in 2..Len(s) : CASE marking = "none" -> TRUE
                                  [] marking = "word-boundary" -> StartsW(s, i)
                                  [] OTHER -> StartsP(s, m, i)}
        en(i) == CASE marking = "none" -> i
                   [] marking = "word-boundary" -> EndOfW(s, i)
                   [] OTHER -> EndOfP(s, m, i)
        ss == SetToSortSeq(st, <)
    IN  [n \in 1..Len(ss) |-> <<ss[n], en(ss[n])>>]

\* The units shown of a word: an unknown unit makes the whole word unknown, if
\* the words are delimited by boundaries.
Shown(s, marking, g) ==
    LET u == SelectSeq(SubSeq(s, g[1], g[2]), LAMBDA x : marking # "word-boundary" \/ x # "<w>")
    IN  IF marking = "word-boundary" /\ \E i \in 1..Len(u) : u[i] = "<unk>" THEN << "<unk>" >> ELSE u

MergedWords(s, m, marking) ==
    LET g == Segments(s, m, marking)
    IN  <<<<s[1]>>>> \o [n \in 1..Len(g) |-> Shown(s, marking, g[n])]
MergedScores(s, r, m, marking) ==
    LET g == Segments(s, m, marking)
    IN  [n \in 1..Len(g) |-> Total(SubSeq(r, g[n][1] - 1, g[n][2] - 1))]

\* Statistics of a sequence of scores.
SumIn(r) == FoldLeft(LAMBDA a, b : IF b.k = "v" THEN a + b.x ELSE a, 0, r)
NumOf(r, k) == Len(SelectSeq(r, LAMBDA x : x.k = k))
=============================================================================
