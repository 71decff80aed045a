---------------------------- MODULE TextSampling ----------------------------
(* Generating text from a language model.                                   *)
(*                                                                          *)
(* A network is known by what it has read: its recurrent state is the       *)
(* sequence of words that it has been given.  Sup(h) is the set of classes  *)
(* that may follow history h, Mem(c) the words of class c.  The sampler     *)
(* keeps, for each sequence, the state of the network, the word to be read  *)
(* next, and the words of the sequence so far.                              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Start, Sup(_), Mem(_)

Sampler0(n) == [i \in 1..n |-> [st |-> <<>>, in |-> Start, out |-> <<Start>>]]

\* The next word of the seed is read by every sequence.
Feed(s, w) == [i \in DOMAIN s |-> [st |-> Append(s[i].st, s[i].in), in |-> w, out |-> Append(s[i].out, w)]]

Drawable(q) == UNION {Mem(k) : k \in Sup(Append(q.st, q.in))}
\* Draws is a word for each sequence.
Sample(s, draws) ==
    [i \in DOMAIN s |-> [st |-> Append(s[i].st, s[i].in), in |-> draws[i], out |-> Append(s[i].out, draws[i])]]

\* Words of a sequence of length N (counting the start, but not the seed).
Total(length, seed) == length + Len(seed)
Begins(words, seed) == SubSeq(words, 1, Len(seed) + 1) = <<Start>> \o seed
Possible(words, t, cls(_)) == cls(words[t]) \in Sup(SubSeq(words, 1, t - 1))

-----------------------------------------------------------------------------
(* Frequencies: x out of n draws of something whose expected number is e    *)
(* (rounded).  More than seven standard deviations are not a coincidence.   *)
Sqr(x) == x * x
Plausible(x, e, n) ==
    LET d == IF x > e THEN x - e ELSE e - x
        var == (e * (n - e)) \div n
    IN  IF d > 20000 THEN FALSE ELSE Sqr(d) <= 49 * var + 150

-----------------------------------------------------------------------------
(* The text written for a sentence: up to the first sentence end. *)
UpToEnd(words, end) ==
    IF \E t \in DOMAIN words : words[t] = end
    THEN SubSeq(words, 1, CHOOSE t \in DOMAIN words : words[t] = end /\ \A u \in 1..(t - 1) : words[u] # end)
    ELSE words
WrittenRight(words, total, end) ==
    /\ \A t \in 1..(Len(words) - 1) : words[t] # end
    /\ Len(words) = total \/ (Len(words) < total /\ words # <<>> /\ Last(words) = end)
=============================================================================
