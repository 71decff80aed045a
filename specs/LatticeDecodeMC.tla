-------------------------- MODULE LatticeDecodeMC --------------------------
(* Decoding of all small lattices, in any order of the nodes that respects  *)
(* the links, with and without limits.                                      *)
EXTENDS LatticeDecode

CONSTANTS N, MaxLinks, Words, Orders, Maxes, Beams

VARIABLES lat, opt, done, toks, best, fin, dropped

vars == <<lat, opt, done, toks, best, fin, dropped>>

Code(w) == CASE w = "a" -> 1 [] w = "b" -> 2 [] OTHER -> 3
HashOf(h) == FoldLeft(LAMBDA x, w : (2 * x + Code(w)) % 5, 1, h)
MCLinkScore(h, k) == -((HashOf(h) + Code(k.w)) % 3)
MCEndScore(h) == -(HashOf(h) % 2)
MCEndWord == "end"

MCNone == {NoLimit}
MCMaxes == {NoLimit, 1, 2}
MCBeams == {NoLimit, 0, 2}
Arcs == {<<s, e, w>> : s \in 1..N, e \in 1..N, w \in Words \cup {Null}}
Forward == {x \in Arcs : x[1] < x[2]}
MkLink(x) == [s |-> x[1], e |-> x[2], w |-> x[3], nm |-> FALSE,
              a |-> -((2 * x[1] + x[2] + Code(x[3])) % 4), m |-> -((x[1] + 3 * x[2] + 2 * Code(x[3])) % 3)]
MkLat(A) == [n |-> N, init |-> 1, finals |-> {N}, time |-> [x \in 1..N |-> NoTime],
             links |-> LET q == SetToSeq(A) IN [i \in 1..Len(q) |-> MkLink(q[i])]]
Lattices(most) == {MkLat(A) : A \in {B \in UNION {kSubset(k, Forward) : k \in 1..most} :
                                 \E x \in B : x[2] = N /\ \E y \in B : y[1] = 1}}

Init == /\ lat \in {x \in Lattices(MaxLinks) : N \in Reachable(x)}
        /\ opt \in [order : Orders, max : Maxes, beam : Beams, weight : {2}, scale : {1}, wip : {0},
                    divider : {1}, minbeam : {0}, minmax : {0}]
        /\ done = {} /\ fin = <<>> /\ dropped = {}
        /\ toks = [x \in Nodes(lat) |-> IF x = lat.init THEN <<Start>> ELSE <<>>]
        /\ best = [x \in Nodes(lat) |-> IF x = lat.init THEN Total4(opt, Start) ELSE -1000]

\* A node is processed when all its predecessors have been.
Process(x) ==
    /\ x \in Ready(lat, done)
    /\ LET later == Reachable(lat) \ done
           b == CHOOSE v \in {best[y] : y \in later} : \A y \in later : best[y] <= v
           here == Pruned(opt, toks[x], b)
           out == Out(lat, x)
           to(y) == FlattenSeq([i \in DOMAIN out |->
                       IF out[i].e = y THEN [j \in DOMAIN here |-> Follow(here[j], out[i])] ELSE <<>>])
       IN  /\ toks' = [y \in Nodes(lat) |-> IF y = x THEN here ELSE toks[y] \o to(y)]
           /\ best' = [y \in Nodes(lat) |-> FoldLeft(LAMBDA v, t : MaxOf2(v, Total4(opt, t)), best[y], to(y))]
           /\ fin' = IF x \in lat.finals THEN fin \o [j \in DOMAIN here |-> Finish(here[j])] ELSE fin
           /\ dropped' = dropped \cup {Dropped(opt, toks[x])[i] : i \in DOMAIN Dropped(opt, toks[x])}
    /\ done' = done \cup {x} /\ UNCHANGED <<lat, opt>>
Next == \E x \in Nodes(lat) : Process(x)
Spec == Init /\ [][Next]_vars

Over == done = Reachable(lat)
Result == Kept(opt, fin)
Elems(s) == {s[i] : i \in DOMAIN s}
NoPruning == opt.max = NoLimit /\ opt.beam = NoLimit

\* Every hypothesis is a path with its scores; none is there twice.
RealPaths == Over => /\ Elems(Result) \subseteq AllTokens(lat)
                     /\ \A i, j \in DOMAIN Result : i < j => Result[i].h # Result[j].h /\
                                                    Total4(opt, Result[i]) >= Total4(opt, Result[j])
\* Without pruning there is one hypothesis for each word sequence, and it is
\* the best path with those words.
Exhaustive == Over /\ NoPruning /\ opt.order = 0 =>
    /\ {t.h : t \in Elems(Result)} = {t.h : t \in AllTokens(lat)}
    /\ \A i \in DOMAIN Result : \A t \in AllTokens(lat) :
          t.h = Result[i].h => Total4(opt, t) <= Total4(opt, Result[i])
    /\ \A t \in AllTokens(lat) : Total4(opt, t) <= Total4(opt, Result[1])
\* Something is always found.
Found == Over => Len(Result) >= 1
\* Dropped tokens are not better than those kept in their place.
DropWorse == \A d \in dropped : Total4(opt, d.t) <= Total4(opt, d.k) /\ SameKey(opt, d.t, d.k)
NodeLimit == opt.max # NoLimit => \A x \in done : Len(toks[x]) <= opt.max
\* The order that the earliest-first rule gives is one of those explored.
OrderOk == IsOrder(lat, Order(lat)) /\ ~Cyclic(lat)
=============================================================================
