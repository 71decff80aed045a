--------------------------- MODULE LatticeDecode ---------------------------
(* Decoding of word lattices by passing tokens.                             *)
(*                                                                          *)
(* A token is [h, a, m, n]: words of the path, sums of the acoustic scores, *)
(* lattice and neural network language model scores.                        *)
(* Options: weight of the network (out of 4), scale, wip (penalty), order   *)
(* (0: the entire history), beam and max (NoLimit if there is none),        *)
(* divider, minbeam, minmax (tightening of the limits).                     *)
EXTENDS Lattice

NoLimit == -1

-----------------------------------------------------------------------------
(* Tokens.  The score of a word after a history on a link is given by the   *)
(* network and the rules about unknown words.                               *)
CONSTANTS LinkScore(_, _), EndScore(_), EndWord

Start == [h |-> <<>>, a |-> 0, m |-> 0, n |-> 0]
Follow(tok, k) == [h |-> IF k.w = Null THEN tok.h ELSE Append(tok.h, k.w),
                   a |-> tok.a + k.a, m |-> tok.m + k.m,
                   n |-> IF k.w = Null THEN tok.n ELSE tok.n + LinkScore(tok.h, k)]
Finish(tok) == [tok EXCEPT !.h = Append(@, EndWord), !.n = @ + EndScore(tok.h)]

\* Four times the scores, to weight in fourths.
Graph4(o, tok) == o.scale * (o.weight * tok.n + (4 - o.weight) * tok.m) + 4 * o.wip * Len(tok.h)
Total4(o, tok) == 4 * tok.a + Graph4(o, tok)

\* All the paths.
AllTokens(lat) ==
    LET ord == Order(lat)
        step(T, x) == FoldLeft(LAMBDA U, k : [U EXCEPT ![k.e] = @ \cup {Follow(t, k) : t \in T[x]}],
                               T, Out(lat, x))
        end == FoldLeft(step, [x \in Nodes(lat) |-> IF x = lat.init THEN {Start} ELSE {}], ord)
    IN  {Finish(t) : t \in UNION {end[x] : x \in lat.finals \cap Reachable(lat)}}

-----------------------------------------------------------------------------
(* Recombination and pruning. *)

Key(o, tok) == IF o.order = 0 \/ Len(tok.h) <= o.order THEN tok.h
               ELSE SubSeq(tok.h, Len(tok.h) - o.order + 1, Len(tok.h))
SameKey(o, x, y) == Key(o, x) = Key(o, y)

Sorted(o, toks) == SortSeq(toks, LAMBDA x, y : Total4(o, x) > Total4(o, y))
\* The first of those with the same key is kept.
FirstOf(keys, i) == CHOOSE j \in 1..i : keys[j] = keys[i] /\ \A k \in 1..(j - 1) : keys[k] # keys[i]
WithFirst(o, sorted) ==
    LET keys == TLCEval([i \in DOMAIN sorted |-> Key(o, sorted[i])])
    IN  [i \in DOMAIN sorted |-> [t |-> sorted[i], f |-> FirstOf(keys, i), i |-> i]]
Kept(o, toks) == LET r == SelectSeq(TLCEval(WithFirst(o, TLCEval(Sorted(o, toks)))), LAMBDA x : x.f = x.i)
                 IN  [i \in DOMAIN r |-> r[i].t]
\* Dropped tokens, with those kept in their place.
Dropped(o, toks) ==
    LET s == TLCEval(Sorted(o, toks))
        r == SelectSeq(TLCEval(WithFirst(o, s)), LAMBDA x : x.f # x.i)
    IN  [i \in DOMAIN r |-> [t |-> r[i].t, k |-> s[r[i].f]]]

MaxOf2(x, y) == IF x > y THEN x ELSE y
Beam4(o) == MaxOf2((4 * o.beam) \div o.divider, 4 * o.minbeam)
MaxTokens(o) == MaxOf2(1, MaxOf2(o.max \div o.divider, o.minmax))
\* best: the best score at the same or a later time.
InBeam(o, kept, best) ==
    IF o.beam = NoLimit THEN kept
    ELSE LET in == SelectSeq(kept, LAMBDA t : Total4(o, t) > best - Beam4(o))
         IN  IF in = <<>> THEN SubSeq(kept, 1, 1) ELSE in
Limited(o, kept) == IF o.max = NoLimit \/ Len(kept) <= MaxTokens(o) THEN kept
                    ELSE SubSeq(kept, 1, MaxTokens(o))
Pruned(o, toks, best) == Limited(o, InBeam(o, Kept(o, toks), best))
=============================================================================
