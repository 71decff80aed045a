----------------------------- MODULE RescoredMC -----------------------------
(* Construction of a lattice after decoding each small lattice.             *)
EXTENDS LatticeDecodeMC, Rescored

VARIABLES drops, g, todo

rvars == <<vars, drops, g, todo>>

\* The lattices are made link by link.
ArcSeq == SetToSeq(Forward)
DetWith(A, x) == \A y \in A : x[1] = y[1] => x[3] # y[3]
Leads(A) == FoldLeft(LAMBDA S, i : S \cup {x[2] : x \in {y \in A : y[1] \in S}}, {1}, [i \in 1..N |-> i])
RInit == /\ opt \in [order : Orders, max : Maxes, beam : Beams, weight : {2}, scale : {1}, wip : {0},
                      divider : {1}, minbeam : {0}, minmax : {0}]
         /\ lat = {} /\ todo = <<"build", 0>>
         /\ done = {} /\ fin = <<>> /\ dropped = {} /\ toks = <<>> /\ best = <<>> /\ drops = <<>> /\ g = {}
RAdd(i) == /\ todo[1] = "build" /\ i > todo[2] /\ Cardinality(lat) < MaxLinks
           /\ DetWith(lat, ArcSeq[i])
           /\ lat' = lat \cup {ArcSeq[i]} /\ todo' = <<"build", i>>
           /\ UNCHANGED <<opt, done, fin, dropped, toks, best, drops, g>>
RStart == /\ todo[1] = "build" /\ Leads(lat) = 1..N /\ Determinized(MkLat(lat))
          /\ lat' = MkLat(lat) /\ todo' = <<"decode">>
          /\ toks' = [x \in 1..N |-> IF x = 1 THEN <<Start>> ELSE <<>>]
          /\ best' = [x \in 1..N |-> IF x = 1 THEN Total4(opt, Start) ELSE -1000]
          /\ UNCHANGED <<opt, done, fin, dropped, drops, g>>

Here(x) == [i \in DOMAIN Dropped(opt, toks[x]) |->
               [t |-> Dropped(opt, toks[x])[i].t, k |-> Dropped(opt, toks[x])[i].k, x |-> x]]
RProcess(x) == /\ todo = <<"decode">> /\ Process(x) /\ drops' = drops \o Here(x) /\ UNCHANGED <<g, todo>>
RResult == /\ todo = <<"decode">> /\ Over
           /\ LET d == Dropped(opt, fin) IN
              drops' = drops \o [i \in DOMAIN d |-> [t |-> d[i].t, k |-> d[i].k, x |-> 0]]
           /\ todo' = <<"final">> \o Result /\ UNCHANGED <<vars, g>>
RFinal == /\ Len(todo) > 1 /\ todo[1] = "final"
          /\ g' = AddEnd(g, NoEnd(todo[2].h), todo[2].n)
          /\ todo' = <<"final">> \o SubSeq(todo, 3, Len(todo)) /\ UNCHANGED <<vars, drops>>
RFinals == /\ todo = <<"final">> /\ todo' = <<"drop">> \o drops /\ UNCHANGED <<vars, drops, g>>
RDrop == /\ Len(todo) > 1 /\ todo[1] = "drop"
         /\ g' = AddDropped(lat, g, todo[Len(todo)])
         /\ todo' = SubSeq(todo, 1, Len(todo) - 1) /\ UNCHANGED <<vars, drops>>
RNext == (\E i \in DOMAIN ArcSeq : RAdd(i)) \/ RStart \/ (\E x \in 1..N : RProcess(x)) \/ RResult \/ RFinal \/ RFinals \/ RDrop
RSpec == RInit /\ [][RNext]_rvars

Made == todo = <<"drop">>
\* The paths of the graph are the hypotheses and those that go on like them.
Meaning == Made => GraphPaths(g) = Completed(lat, Result, drops)
OnePath == Made => \A p, q \in GraphPaths(g) : p.h = q.h => p = q
OriginalWords == Made => {p.h : p \in GraphPaths(g)} \subseteq {NoEnd(t.h) : t \in AllTokens(lat)}
Returned == Made => \A i \in DOMAIN Result : [h |-> NoEnd(Result[i].h), n |-> Result[i].n] \in GraphPaths(g)
AllWords == Made /\ NoPruning => {p.h : p \in GraphPaths(g)} = {NoEnd(t.h) : t \in AllTokens(lat)}
NoDeadEnd == Made => DeadEnds(g) = {}
ExactScores == Made /\ opt.order = 0 =>
    \A p \in GraphPaths(g) : \E t \in AllTokens(lat) : NoEnd(t.h) = p.h /\ t.n = p.n
=============================================================================
