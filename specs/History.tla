------------------------------- MODULE History -------------------------------
(* What a prediction may depend on.  A network consumes words; everything   *)
(* it remembers after a word is, at best, the words it has consumed, so     *)
(* the state is modelled as that sequence of words.  A mini-batch is        *)
(* processed one time step after another for all the sentences; a sentence  *)
(* that has ended keeps its state while padding is consumed.  A layer that  *)
(* runs backwards starts from the end and leaves out the word that is to be *)
(* predicted; a convolution sees a window of the latest inputs.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Pad == "pad"                                   \* zeros, not a word

Active(s, t) == t <= Len(s)
Cell(s, t, garbage) == IF Active(s, t) THEN s[t] ELSE garbage

\* A recurrent step with a mask.
RecStep(state, active, word) == IF active THEN Append(state, word) ELSE state

\* The input of the backward layer at time t, in a batch of T time steps.
BackInput(s, t, T, garbage) == IF t + 2 > T \/ ~Active(s, t + 2) THEN Pad
                               ELSE Cell(s, t + 2, garbage)
BackWant(s, t) == [k \in 1..(Len(s) - t + 1) |->
                     IF t + 2 <= Len(s) - k + 1 + 2 /\ Len(s) - k + 1 + 2 <= Len(s)
                     THEN s[Len(s) - k + 1 + 2] ELSE Pad]

\* Window of a convolution at time t.
Window(s, t, size, garbage) == [k \in 1..size |-> IF t - size + k < 1 THEN Pad
                                                 ELSE Cell(s, t - size + k, garbage)]

\* What the prediction of the word after the first t words may depend on.
Prefix(s, t) == SubSeq(s, 1, t)
Suffix(s, t) == SubSeq(s, t + 2, Len(s))
=============================================================================
