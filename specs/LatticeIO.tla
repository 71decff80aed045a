----------------------------- MODULE LatticeIO -----------------------------
(* What lattice files mean.                                                 *)
(*                                                                          *)
(* An SLF file is the record [n, l, start, ends, nodes, links]: numbers of  *)
(* nodes and links in the header, the initial node and final nodes if given *)
(* (None, {}), node lines [i, w, t] and link lines [s, e, w, a, m], in any  *)
(* order.  Node numbers start from 1 here.  A field that is left out is     *)
(* None; scores are functions of the file's log base.                       *)
(* A Kaldi file is a sequence of lines [from, to, w, a, m, tr], with to     *)
(* None for a final state.                                                  *)
EXTENDS Lattice

None == "none"
Rejected == [n |-> 0]
IsRejected(lat) == lat.n = 0

\* Words that stand for nothing.
IsNull(w, nulls) == w \in nulls

-----------------------------------------------------------------------------
(* SLF.  sc(x) is the natural logarithm of a score in the file.             *)
SlfWord(w, nulls) == IF w = None \/ w \in nulls THEN Null ELSE w

NodeHasWord(f, x) == \E k \in DOMAIN f.nodes : f.nodes[k].i = x /\ f.nodes[k].w # None
NodeWord(f, x, nulls) == IF ~NodeHasWord(f, x) THEN Null
                         ELSE SlfWord(f.nodes[CHOOSE k \in DOMAIN f.nodes : f.nodes[k].i = x /\ f.nodes[k].w # None].w, nulls)
NodeTime(f, x) == IF \E k \in DOMAIN f.nodes : f.nodes[k].i = x /\ f.nodes[k].t # NoTime
                  THEN f.nodes[CHOOSE k \in DOMAIN f.nodes : f.nodes[k].i = x /\ f.nodes[k].t # NoTime].t ELSE NoTime

NoIn(f) == {x \in 1..f.n : ~\E k \in DOMAIN f.links : f.links[k].e = x}
NoOut(f) == {x \in 1..f.n : ~\E k \in DOMAIN f.links : f.links[k].s = x}
SlfFinals(f) == NoOut(f) \cup (f.ends \cap 1..f.n)
SlfInit(f) == IF f.start # 0 THEN f.start
              ELSE IF NoIn(f) = {} THEN 0 ELSE CHOOSE x \in NoIn(f) : \A y \in NoIn(f) : x <= y

\* The words are in the nodes or in the links, the word of a node belonging
\* to the links that lead to it.
SlfMeaning(f, nulls, sc(_)) ==
    LET raw == [n |-> f.n, init |-> SlfInit(f), finals |-> SlfFinals(f),
                time |-> [x \in 1..f.n |-> NodeTime(f, x)],
                links |-> [k \in DOMAIN f.links |->
                    LET own == SlfWord(f.links[k].w, nulls) IN
                    [s |-> f.links[k].s, e |-> f.links[k].e,
                     w |-> IF own # Null THEN own ELSE NodeWord(f, f.links[k].e, nulls),
                     a |-> IF f.links[k].a = 0 THEN 0 ELSE sc(f.links[k].a),
                     m |-> IF f.links[k].m = 0 THEN 0 ELSE sc(f.links[k].m),
                     nm |-> f.links[k].m = 0]]]
    IN  IF \/ Len(f.links) # f.l \/ raw.init = 0 \/ Cardinality(raw.finals) # 1
        THEN Rejected
        ELSE IF \E k \in DOMAIN f.links : /\ f.links[k].s \in Reachable(raw)
                                          /\ SlfWord(f.links[k].w, nulls) # Null
                                          /\ NodeHasWord(f, f.links[k].e)
        THEN Rejected
        ELSE raw

-----------------------------------------------------------------------------
(* Kaldi.  Costs are negated; there is a new final node.                    *)
KaldiStates(f) == {f[i].from : i \in DOMAIN f} \cup {f[i].to : i \in {j \in DOMAIN f : f[j].to # 0}}
KaldiMeaning(f, nulls, bad) ==
    IF f = <<>> \/ \E i \in DOMAIN f : f[i].to # 0 /\ f[i].w \in bad THEN Rejected
    ELSE LET top == CHOOSE x \in KaldiStates(f) : \A y \in KaldiStates(f) : y <= x
             fin == top + 1
         IN  [n |-> fin, init |-> f[1].from, finals |-> {fin}, time |-> [x \in 1..fin |-> NoTime],
              links |-> [i \in DOMAIN f |-> [s |-> f[i].from, e |-> IF f[i].to = 0 THEN fin ELSE f[i].to,
                                             w |-> IF f[i].to = 0 \/ f[i].w \in nulls THEN Null ELSE f[i].w,
                                             a |-> -f[i].a, m |-> -f[i].m, nm |-> FALSE, tr |-> f[i].tr]]]

-----------------------------------------------------------------------------
(* Paths, as a set of <<words, acoustic score, language model score>>.      *)
PathStep(p, k) == <<IF k.w = Null THEN p[1] ELSE Append(p[1], k.w), p[2] + k.a, p[3] + k.m>>
Paths(lat) ==
    LET ord == Order(lat)
        step(T, x) == FoldLeft(LAMBDA U, k : [U EXCEPT ![k.e] = @ \cup {PathStep(p, k) : p \in T[x]}],
                               T, Out(lat, x))
        end == FoldLeft(step, [x \in Nodes(lat) |-> IF x = lat.init THEN {<< <<>>, 0, 0 >>} ELSE {}], ord)
    IN  UNION {end[x] : x \in lat.finals \cap Reachable(lat)}

-----------------------------------------------------------------------------
(* Writing. *)
ToSlf(lat) == [n |-> lat.n, l |-> Len(lat.links), start |-> lat.init, ends |-> {},
               nodes |-> [x \in 1..lat.n |-> [i |-> x, w |-> None, t |-> lat.time[x]]],
               links |-> [k \in DOMAIN lat.links |-> [s |-> lat.links[k].s, e |-> lat.links[k].e,
                                                      w |-> IF lat.links[k].w = Null THEN None ELSE lat.links[k].w,
                                                      a |-> lat.links[k].a, m |-> lat.links[k].m]]]
\* The initial state comes first, the links to the final node become final
\* states.
ToKaldi(lat) ==
    LET line(k) == [from |-> k.s, to |-> IF k.e \in lat.finals THEN 0 ELSE k.e, w |-> k.w,
                    a |-> -k.a, m |-> -k.m, tr |-> "t"]
        first == SelectSeq(lat.links, LAMBDA k : k.s = lat.init)
        rest == SelectSeq(lat.links, LAMBDA k : k.s # lat.init)
    IN  [i \in 1..Len(first) |-> line(first[i])] \o [i \in 1..Len(rest) |-> line(rest[i])]
=============================================================================
