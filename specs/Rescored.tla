------------------------------ MODULE Rescored ------------------------------
(* The lattice that is constructed after decoding a lattice.                *)
(*                                                                          *)
(* It is defined for determinized lattices: a node has at most one link     *)
(* with each word, and null links only lead away from the initial node or   *)
(* into the final node.                                                     *)
(* Decoding gives the hypotheses that reached the end, and the tokens that  *)
(* were dropped in recombination, in order, as [t, k, x]: a token, the      *)
(* token kept in its place, and the node, or 0 at the end of sentence.      *)
EXTENDS LatticeDecode

IsEnd(lat, x) == Succ(lat, x) = {}
Determinized(lat) ==
    /\ \A i, j \in DOMAIN lat.links : i # j /\ lat.links[i].s = lat.links[j].s =>
                                      lat.links[i].w # lat.links[j].w
    /\ \A i \in DOMAIN lat.links : lat.links[i].w = Null =>
          \/ lat.links[i].e \in lat.finals /\ IsEnd(lat, lat.links[i].e)
          \/ /\ lat.links[i].s = lat.init
             /\ \A j \in DOMAIN lat.links : i # j => lat.links[j].s # lat.init /\ lat.links[j].e # lat.links[i].e

IsPrefixOf(p, h) == Len(p) <= Len(h) /\ SubSeq(h, 1, Len(p)) = p
NoEnd(h) == SubSeq(h, 1, Len(h) - 1)

\* Word sequences and network scores of the paths.  A dropped token goes on
\* like the one that was kept.
Completed(lat, fin, drops) ==
    LET step(C, i) ==
            LET d == drops[Len(drops) + 1 - i] IN
            IF d.x = 0 THEN C \cup {[h |-> NoEnd(d.t.h), n |-> d.t.n]}
            ELSE C \cup {[h |-> d.t.h \o SubSeq(r.h, Len(d.k.h) + 1, Len(r.h)), n |-> r.n + d.t.n - d.k.n] :
                           r \in {r \in C : IsPrefixOf(d.k.h, r.h) /\ (IsEnd(lat, d.x) => r.h = d.k.h)}}
    IN  FoldLeft(step, {[h |-> NoEnd(fin[i].h), n |-> fin[i].n] : i \in DOMAIN fin}, [i \in DOMAIN drops |-> i])

-----------------------------------------------------------------------------
(* The construction.  The links of the new lattice are [f, w, t, m]: names  *)
(* of the nodes, word, and the part of the score that comes from the        *)
(* network.  A node is named by the words it was created for.               *)
End == <<"END">>
NoNode == <<"NONE">>
Goes(g, x, w) == {k \in g : k.f = x /\ k.w = w /\ k.t # End}
Walk(g, h) == FoldLeft(LAMBDA x, w : IF x = NoNode \/ Goes(g, x, w) = {} THEN NoNode
                                     ELSE (CHOOSE k \in Goes(g, x, w) : TRUE).t, <<>>, h)
AddWalk(g, h) ==
    FoldLeft(LAMBDA s, w : IF Goes(s.g, s.x, w) # {}
                           THEN [s EXCEPT !.x = (CHOOSE k \in Goes(s.g, s.x, w) : TRUE).t]
                           ELSE [g |-> s.g \cup {[f |-> s.x, w |-> w, t |-> Append(s.x, w), m |-> 0]},
                                 x |-> Append(s.x, w)],
             [g |-> g, x |-> <<>>], h)
Ends(g, x) == {k \in g : k.f = x /\ k.t = End}
AddEnd(g, h, n) == LET s == AddWalk(g, h) IN
    IF Ends(s.g, s.x) # {} THEN s.g ELSE s.g \cup {[f |-> s.x, w |-> Null, t |-> End, m |-> n]}
AddDropped(lat, g, d) ==
    IF d.x = 0 THEN AddEnd(g, NoEnd(d.t.h), d.t.n)
    ELSE LET k == Walk(g, d.k.h) IN
         IF k = NoNode \/ d.t.h = <<>> THEN g
         ELSE IF IsEnd(lat, d.x)
              THEN IF Ends(g, k) = {} THEN g
                   ELSE AddEnd(g, d.t.h, (CHOOSE q \in Ends(g, k) : TRUE).m + d.t.n - d.k.n)
              ELSE LET from == Walk(g, NoEnd(d.k.h))
                       into == CHOOSE q \in Goes(g, from, d.k.h[Len(d.k.h)]) : TRUE
                       s == AddWalk(g, NoEnd(d.t.h))
                   IN  s.g \cup {[f |-> s.x, w |-> d.t.h[Len(d.t.h)], t |-> k, m |-> into.m + d.t.n - d.k.n]}

\* Paths of the new lattice; it has at most as many steps as there are links.
GraphPaths(g) ==
    LET step(S, i) == {p \in S : p.x = End} \cup
                      UNION {{[x |-> k.t, n |-> p.n + k.m, h |-> IF k.t = End THEN p.h ELSE Append(p.h, k.w)] :
                                k \in {q \in g : q.f = p.x}} : p \in {q \in S : q.x # End}}
        all == FoldLeft(step, {[x |-> <<>>, n |-> 0, h |-> <<>>]}, [i \in 1..(Cardinality(g) + 1) |-> i])
    IN  {[h |-> p.h, n |-> p.n] : p \in {q \in all : q.x = End}}
DeadEnds(g) == {k \in g : k.t # End /\ ~\E q \in g : q.f = k.t}
=============================================================================
