------------------------------ MODULE Lattice ------------------------------
(* Word lattices.                                                           *)
(*                                                                          *)
(* A lattice is [n, links, init, finals, time]: nodes 1..n; links a         *)
(* sequence of [s, e, w, a, m, nm]: start and end node, word (Null if there *)
(* is none), acoustic score, language model score, whether the language     *)
(* model score is missing; times of the nodes (NoTime if there are none).   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

Null == ""
NoTime == -1

Nodes(lat) == 1..lat.n
Out(lat, x) == SelectSeq(lat.links, LAMBDA k : k.s = x)
Succ(lat, x) == {lat.links[i].e : i \in {j \in DOMAIN lat.links : lat.links[j].s = x}}

\* Nodes that can be reached; a cycle makes decoding impossible.
Closure(lat, from) ==
    LET nx == TLCEval([x \in Nodes(lat) |-> Succ(lat, x)])
        \* The nodes found, and those found last.
        step(S, i) == IF S.new = {} THEN S
                      ELSE LET new == UNION {nx[x] : x \in S.new} \ S.all
                           IN  TLCEval([all |-> S.all \cup new, new |-> new])
    IN  FoldLeft(step, [all |-> from, new |-> from], [i \in 1..lat.n |-> i]).all
Reachable(lat) == Closure(lat, {lat.init})
ReachFrom(lat, x) == Closure(lat, Succ(lat, x))
Cyclic(lat) == \E x \in Reachable(lat) : x \in ReachFrom(lat, x)
\* An order that respects the links.
IsOrder(lat, ord) == /\ {ord[i] : i \in DOMAIN ord} = Reachable(lat)
                     /\ Len(ord) = Cardinality(Reachable(lat))
                     /\ \A i, j \in DOMAIN ord : ord[j] \in Succ(lat, ord[i]) => i < j
\* Of the nodes that may come next, the one with the earliest time.
Ready(lat, done) == LET R == TLCEval(Reachable(lat)) IN
    {x \in R \ done : \A y \in R : x \in Succ(lat, y) => y \in done}
Order(lat) ==
    LET R == TLCEval(Reachable(lat))
        before == TLCEval([x \in R |-> {y \in R : x \in Succ(lat, y)}])
        step(o, i) == LET r == {x \in R \ o.done : before[x] \subseteq o.done} IN
                      IF r = {} THEN o
                      ELSE LET x == CHOOSE x \in r : \A y \in r : lat.time[x] <= lat.time[y]
                           IN  TLCEval([done |-> o.done \cup {x}, q |-> Append(o.q, x)])
    IN  FoldLeft(step, [done |-> {}, q |-> <<>>], [i \in 1..lat.n |-> i]).q
EarliestFirst(lat, ord) ==
    \A i \in DOMAIN ord : \A y \in Ready(lat, {ord[j] : j \in 1..(i - 1)}) : lat.time[ord[i]] <= lat.time[y]
DistinctTimes(lat) == \A x, y \in Nodes(lat) : x # y => lat.time[x] # lat.time[y]
TimesForward(lat) == \A i \in DOMAIN lat.links : lat.time[lat.links[i].s] < lat.time[lat.links[i].e]

=============================================================================
