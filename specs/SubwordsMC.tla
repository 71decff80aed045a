----------------------------- MODULE SubwordsMC -----------------------------
(* Units arrive one at a time and are merged on the way; the result has to   *)
(* be what Subwords.tla says about the complete sentence.                    *)
EXTENDS Subwords

CONSTANTS MaxUnits, Markings

VARIABLES marking, s, r, words, lps, cur, lp, open

vars == <<marking, s, r, words, lps, cur, lp, open>>

Units == {"<w>", "a", "b+", "+c", "+d+", "<unk>"}
Flag(u) == [plusend |-> u \in {"b+", "+d+"}, plusstart |-> u \in {"+c", "+d+"}]
Flags(q) == [i \in 1..Len(q) |-> Flag(q[i])]

Init == /\ marking \in Markings /\ s = << "<s>" >> /\ r = <<>>
        /\ words = << << "<s>" >> >> /\ lps = <<>> /\ cur = <<>> /\ lp = V(0) /\ open = TRUE

Feed(u, x) ==
    /\ open /\ Len(s) < MaxUnits /\ s' = Append(s, u) /\ r' = Append(r, x)
    /\ IF marking = "none"
       THEN words' = Append(words, <<u>>) /\ lps' = Append(lps, x) /\ UNCHANGED <<cur, lp>>
       ELSE IF marking = "word-boundary"
       THEN IF u = "<w>"
            THEN /\ words' = (IF cur = <<>> THEN words ELSE Append(words, cur))
                 /\ lps' = (IF cur = <<>> THEN lps ELSE Append(lps, Plus(lp, x)))
                 /\ cur' = <<>> /\ lp' = V(0)
            ELSE /\ cur' = (IF u = "<unk>" \/ cur = << "<unk>" >> THEN << "<unk>" >> ELSE Append(cur, u))
                 /\ lp' = Plus(lp, x) /\ UNCHANGED <<words, lps>>
       ELSE IF cur # <<>> /\ Flag(cur[Len(cur)]).plusend /\ Flag(u).plusstart
            THEN cur' = Append(cur, u) /\ lp' = Plus(lp, x) /\ UNCHANGED <<words, lps>>
            ELSE /\ words' = (IF cur = <<>> THEN words ELSE Append(words, cur))
                 /\ lps' = (IF cur = <<>> THEN lps ELSE Append(lps, lp))
                 /\ cur' = <<u>> /\ lp' = x
    /\ UNCHANGED <<marking, open>>
Finish == /\ open /\ Len(s) > 1 /\ open' = FALSE
          /\ words' = (IF cur = <<>> THEN words ELSE Append(words, cur))
          /\ lps' = (IF cur = <<>> THEN lps ELSE Append(lps, lp))
          /\ UNCHANGED <<marking, s, r, cur, lp>>
\* Scores are powers of three, so that every sum tells its terms.
Next == (\E u \in Units : \E x \in {V(3 ^ Len(s)), None, Zero} :
            (x.k = "v" \/ Len(SelectSeq(r, LAMBDA y : y.k # "v")) = 0) /\ Feed(u, x)) \/ Finish
Spec == Init /\ [][Next]_vars

Agree == ~open => /\ words = MergedWords(s, Flags(s), marking)
                  /\ lps = MergedScores(s, r, Flags(s), marking)
OneLess == ~open => Len(lps) = Len(words) - 1
\* Every predicted unit is in exactly one word; only boundaries that end no
\* word are in none.
Covered == ~open =>
    LET g == Segments(s, Flags(s), marking) IN
    \A i \in 2..Len(s) :
       LET n == Cardinality({k \in 1..Len(g) : i \in g[k][1]..g[k][2]})
       IN  n = 1 \/ (n = 0 /\ marking = "word-boundary" /\ s[i] = "<w>" /\ (i = 2 \/ s[i - 1] = "<w>"))
=============================================================================
