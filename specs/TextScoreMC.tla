---------------------------- MODULE TextScoreMC ----------------------------
(* Sentences are scored in batches of any composition, one time step after  *)
(* another, or one by one.  Scores are integers here: each predicted word   *)
(* costs a function of its whole history.                                   *)
EXTENDS TextScore

CONSTANTS MaxSentences, MaxLen

VARIABLES text, set, todo, batch, t, sums, counts, total, num

vars == <<text, set, todo, batch, t, sums, counts, total, num>>

\* a, z in one class (z never occurs), o out of shortlist.
V == Counted(AddOos(AddSpecials(AddWord(AddWord(Empty, "a", "1", 1), "z", "1", 1)), "o"),
             [x \in {"a", "o"} |-> 2], TRUE)
Sentences == UNION {{<<SOS>> \o s \o <<EOS>> : s \in [1..n -> {"a", "z", "o", UNK}]} : n \in 0..MaxLen}

Code(w) == CASE w = "a" -> 1 [] w = "z" -> 2 [] w = "o" -> 3 [] w = UNK -> 5 [] OTHER -> 7
Cost(s, i) == 1 + (SumOver(1..i, LAMBDA j : j * Code(s[j])) % 11)
                + Factor(V, set, s[i])[2] - Factor(V, set, s[i])[1]
LineTotal(s) == SumOver({i \in 2..Len(s) : Counts(V, set, s[i])}, LAMBDA i : Cost(s, i))

Init == /\ text \in UNION {[1..n -> Sentences] : n \in 1..MaxSentences}
        /\ set \in [short : BOOLEAN, excl : BOOLEAN]
        /\ todo = Len(text) /\ batch = {} /\ t = 0 /\ sums = <<>> /\ counts = <<>> /\ total = 0 /\ num = 0

\* The next sentences make a batch.
Fill(n) == /\ batch = {} /\ todo >= n
           /\ batch' = (todo - n + 1)..todo /\ todo' = todo - n /\ t' = 1
           /\ sums' = [i \in batch' |-> 0] /\ counts' = [i \in batch' |-> 0]
           /\ UNCHANGED <<text, set, total, num>>
\* One time step of all the sequences; shorter ones are padded.
Step == /\ batch # {} /\ \E i \in batch : t < Len(text[i])
        /\ t' = t + 1
        /\ LET on(i) == t' <= Len(text[i]) /\ Counts(V, set, text[i][t'])
           IN  /\ sums' = [i \in batch |-> IF on(i) THEN sums[i] + Cost(text[i], t') ELSE sums[i]]
               /\ counts' = [i \in batch |-> IF on(i) THEN counts[i] + 1 ELSE counts[i]]
        /\ UNCHANGED <<text, set, todo, batch, total, num>>
Add == /\ batch # {} /\ \A i \in batch : t >= Len(text[i])
       /\ total' = total + SumOver(batch, LAMBDA i : sums[i])
       /\ num' = num + SumOver(batch, LAMBDA i : counts[i])
       /\ batch' = {} /\ UNCHANGED <<text, set, todo, t, sums, counts>>
Next == Fill(1) \/ Fill(2) \/ Step \/ Add
Spec == Init /\ [][Next]_vars

PerSentence == \A i \in batch : t >= Len(text[i]) =>
                  sums[i] = LineTotal(text[i]) /\ counts[i] = NumCounted(V, set, text[i])
WholeText == todo = 0 /\ batch = {} =>
                /\ total = SumOver(1..Len(text), LAMBDA i : LineTotal(text[i]))
                /\ num = SumOver(1..Len(text), LAMBDA i : NumCounted(V, set, text[i]))
\* The sentence end is always predicted; nothing is counted that is excluded.
EndCounts == \A i \in 1..Len(text) : NumCounted(V, set, text[i]) >= 1
ExcludeLess == \A i \in 1..Len(text) :
                 NumCounted(V, [set EXCEPT !.excl = TRUE], text[i]) <= NumCounted(V, set, text[i])
\* The probabilities of the words that share a class, and of the words that
\* share the unknown word token, add up to that of the class.
Normalized == /\ LET f(w) == Factor(V, [short |-> TRUE, excl |-> FALSE], w) IN
                 f("a")[1] * f("z")[2] + f("z")[1] * f("a")[2] = f("a")[2] * f("z")[2]
              /\ Factor(V, [short |-> TRUE, excl |-> FALSE], "o") = <<2, 2>>
=============================================================================
