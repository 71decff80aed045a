---------------------------- MODULE LatticeIOMC ----------------------------
(* Reading a file line by line, ordering the nodes one by one and writing,  *)
(* for all small files.                                                     *)
EXTENDS LatticeIO

CONSTANTS N, MaxLinks, Words

VARIABLES file, phase, left, got, moved, queue, order, deg

vars == <<file, phase, left, got, moved, queue, order, deg>>

Nulls == {"!NULL"}
Same(x) == x
ArcSet == {<<s, e>> : s \in 1..N, e \in 1..N}
MkLinks(A, ws) == LET q == SetToSeq(A) IN
    [k \in DOMAIN q |-> [s |-> q[k][1], e |-> q[k][2], w |-> ws[(q[k][1] + q[k][2]) % 2],
                         a |-> -(q[k][1] + 2 * q[k][2]), m |-> -(3 * q[k][1] + q[k][2])]]
Files == {[n |-> N, l |-> Cardinality(A), start |-> st, ends |-> {}, links |-> MkLinks(A, lw),
           nodes |-> [x \in 1..N |-> [i |-> x, w |-> nw[x % 2], t |-> NoTime]]] :
             A \in UNION {kSubset(k, ArcSet) : k \in 1..MaxLinks}, st \in {0, 1},
             lw \in {[x \in 0..1 |-> None], [x \in 0..1 |-> IF x = 0 THEN "!NULL" ELSE "a"]},
             nw \in {[x \in 0..1 |-> None], [x \in 0..1 |-> IF x = 0 THEN "a" ELSE "b"]}}

Init == /\ file \in Files /\ phase = "read" /\ left = DOMAIN file.links
        /\ got = {} /\ moved = {} /\ queue = {} /\ order = <<>> /\ deg = <<>>

Want == SlfMeaning(file, Nulls, Same)

\* The link lines come in any order.
ReadLink(k) == /\ phase = "read" /\ k \in left
               /\ got' = got \cup {k} /\ left' = left \ {k}
               /\ UNCHANGED <<file, phase, moved, queue, order, deg>>
Check == /\ phase = "read" /\ left = {}
         /\ phase' = IF IsRejected(Want) THEN "rejected" ELSE "move"
         /\ UNCHANGED <<file, left, got, moved, queue, order, deg>>
\* Words are moved from the nodes to the links that have been reached.
Frontier == {k \in got \ moved : file.links[k].s = Want.init \/
                \E j \in moved : file.links[j].e = file.links[k].s}
MoveWord(k) == /\ phase = "move" /\ k \in Frontier /\ moved' = moved \cup {k}
               /\ UNCHANGED <<file, phase, left, got, queue, order, deg>>
Degree(x) == Cardinality({k \in DOMAIN file.links : file.links[k].e = x /\ file.links[k].s \in Reachable(Want)})
Moved == /\ phase = "move" /\ Frontier = {}
         /\ phase' = "sort" /\ queue' = {Want.init} /\ deg' = [x \in 1..N |-> Degree(x)]
         /\ UNCHANGED <<file, left, got, moved, order>>
\* Kahn's algorithm: a node enters the queue when its last link is crossed.
Sort(x) == /\ phase = "sort" /\ x \in queue
           /\ LET cross == {k \in DOMAIN file.links : file.links[k].s = x}
                  d == [y \in 1..N |-> deg[y] - Cardinality({k \in cross : file.links[k].e = y})]
                  ready == {y \in 1..N : d[y] = 0 /\ deg[y] > 0}
              IN  /\ deg' = d /\ order' = Append(order, x)
                  /\ IF \E y \in 1..N : d[y] < 0 THEN phase' = "cycle" /\ queue' = {}
                     ELSE phase' = phase /\ queue' = (queue \ {x}) \cup ready
           /\ UNCHANGED <<file, left, got, moved>>
Sorted == /\ phase = "sort" /\ queue = {}
          /\ phase' = IF Len(order) < Cardinality(Reachable(Want)) THEN "cycle" ELSE "done"
          /\ UNCHANGED <<file, left, got, moved, queue, order, deg>>
Next == \/ \E k \in DOMAIN file.links : ReadLink(k) \/ MoveWord(k)
        \/ Check \/ Moved \/ Sorted \/ \E x \in 1..N : Sort(x)
Spec == Init /\ [][Next]_vars

\* The traversal reaches the links of all paths.
AllMoved == phase \in {"sort", "done"} => \A k \in DOMAIN file.links : file.links[k].s \in Reachable(Want) => k \in moved
\* An order is found for acyclic lattices and for no other.
SortRight == /\ phase = "done" => IsOrder(Want, order) /\ ~Cyclic(Want)
             /\ phase = "cycle" => Cyclic(Want)
\* Writing and reading give the same lattice.
RoundSlf == phase = "done" => LET again == SlfMeaning(ToSlf(Want), Nulls, Same) IN
                ~IsRejected(again) /\ Paths(again) = Paths(Want)
RoundKaldi == phase = "done" /\ (\A k \in DOMAIN Want.links : Want.links[k].e \in Want.finals => Want.links[k].w = Null)
                /\ (\E k \in DOMAIN Want.links : Want.links[k].s = Want.init) =>
                LET again == KaldiMeaning(ToKaldi(Want), {Null}, {}) IN
                ~IsRejected(again) /\ Paths(again) = Paths(Want)
=============================================================================
