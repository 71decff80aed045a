--------------------------- MODULE BatchIterGen ---------------------------
(* Enumerates small data sets, reader settings and call schedules and prints *)
(* them as scenarios to be replayed with the real readers.                   *)
EXTENDS Integers, Sequences, TLC, Json

Lines == {<<>>, <<"a">>, <<"b", "o", "x">>, <<"<s>", "c", "</s>">>, <<"d", "x", "e", "b">>}
FileSets == {<<f, g>> : f \in {<<x, y>> : x \in Lines, y \in Lines}, g \in {<<<<"a", "b">>>>, <<<<"c">>, <<>>, <<"e", "o">>>>}}

\* Calls: n next batch, s save, r restore into the same reader, R restore into
\* a new reader, e iterate to the end of the epoch, l ask the number of batches.
Schedules == { <<"e", "e", "l", "e">>,
               <<"n", "s", "n", "r", "e", "e">>,
               <<"s", "e", "r", "n", "R", "e", "e">>,
               <<"n", "n", "s", "e", "n", "r", "e", "e">>,
               <<"e", "n", "s", "n", "n", "n", "r", "e", "R", "e">> }

Settings == {[batch |-> b, maxlen |-> m, fr |-> f, oosunk |-> (b = 2)] :
               b \in {1, 2, 3}, m \in {0, 2, 3}, f \in {10, 20}}

VARIABLE done
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \A fs \in FileSets : \A s \in Settings : \A sched \in Schedules :
              PrintT("SCN " \o ToJson([files |-> fs, set |-> s, sched |-> sched]))
=============================================================================
