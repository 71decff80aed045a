----------------------------- MODULE LayersTrace -----------------------------
(* Validates recorded networks.  A case has a description D.                *)
(*   refused  no network is built                                           *)
(*   new      the parameters of a new network: path, dims, values           *)
(*   run      outputs for a sentence, given parameters                      *)
(*   train    outputs for one word with dropout, n times                    *)
EXTENDS Layers, Json, TLC

VARIABLES c, l, st
Cases == JsonDeserialize("cases.json")
Case == Cases[c]
Ev == Case.ev[l]
D == Case.D
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)
TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ st = "ok"
Near(a, b, tol) == FAbs(a - b) <= tol

Par == [path \in {Case.par[k].path : k \in DOMAIN Case.par} |->
           Case.par[CHOOSE k \in DOMAIN Case.par : Case.par[k].path = path]]

TRefused == /\ Ev.a = "refused"
            /\ st' = IF Buildable(D) THEN "refused-valid-description"
                     ELSE IF Ev.class \notin {"InputError", "ValueError"} THEN "refused-with-another-error" ELSE "ok"
            /\ Report(st')

\* Rows of a square block are orthonormal.
Orthonormal(p, from) == \A x, y \in 1..p.dims[1] :
    Near(FoldLeft(LAMBDA a, j : a + Mul(p.v[(x - 1) * Cols(p) + from + j], p.v[(y - 1) * Cols(p) + from + j]), 0, Idx(p.dims[1])),
         IF x = y THEN One ELSE 0, 40)
Owner(path) == CHOOSE i \in DOMAIN D.el : \E k \in DOMAIN LayerParams(D, Sizes(D), i) : LayerParams(D, Sizes(D), i)[k][1] = path
\* The matrices of the gates are orthogonal if they are square.
NewOK(p) == LET i == Owner(p.path)
                e == D.el[i]
                gates == IF e.type \in Gated THEN 2 ELSE IF e.type \in Recurrent \cup Both THEN GatesOf(e.type) ELSE 1
                want == NewBias(D, Sizes(D), i, p.dims, IF i = Final(D) THEN Case.prior ELSE <<>>)
            IN  IF p.bias THEN Len(want) = Len(p.v) /\ \A k \in DOMAIN want : Near(p.v[k], want[k], 60)
                ELSE (Len(p.dims) = 2 /\ p.dims[2] = p.dims[1] * gates) => \A g \in 0..(gates - 1) : Orthonormal(p, g * p.dims[1])
TNew == /\ Ev.a = "new"
        /\ st' = IF ~Buildable(D) THEN "accepted-invalid-description"
                 ELSE IF {<<Ev.par[k].path, Ev.par[k].dims>> : k \in DOMAIN Ev.par} # {AllParams(D)[k] : k \in DOMAIN AllParams(D)}
                      THEN "parameters"
                 ELSE IF \E k \in DOMAIN Ev.par : ~NewOK(Ev.par[k]) THEN "initial-values" ELSE "ok"
        /\ Report(st')

Close(a, b, tol) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Near(a[j], b[j], tol)
TRun == /\ Ev.a = "run"
        /\ \E out \in {Output(D, Par, Ev, Case.skip, <<>>)} :
             st' = First(<<
               <<"length", Len(Ev.out) = Len(out)>>,
               <<"output-size", \A t \in DOMAIN Ev.out : Len(Ev.out[t]) = D.classes>>,
               <<"outputs", Len(Ev.out) = Len(out) => \A t \in DOMAIN out : Close(Ev.out[t], out[t], Ev.tol)>>,
               <<"targets", Len(Ev.out) = Len(out) => \A t \in DOMAIN Ev.target : Near(Ev.target[t], out[t][Ev.want[t]], Ev.tol)>> >>)
        /\ Report(st')

\* How many draws of rate p are plausible.
Spread(n, p) == 6 * Isqrt((n * ((p * ((One - p) \div 100)) \div 1000)) \div One + 1) + 6
TTrain ==
    /\ Ev.a = "train"
    /\ \E out \in {[m \in DropMasks(D) |-> Output(D, Par, Ev, Case.skip, m)[1]]} :
       \E fit \in {[k \in DOMAIN Ev.out |-> {m \in DropMasks(D) : Close(Ev.out[k], out[m], Ev.tol)}]} :
         LET rate == RateOf(D.el[CHOOSE i \in DOMAIN D.el : D.el[i].kind = "layer" /\ D.el[i].type = "dropout"])
             sure == SelectSeq(Idx(Len(fit)), LAMBDA k : Cardinality(fit[k]) = 1)
             units == Len((CHOOSE m \in DropMasks(D) : TRUE)[1])
             kept == Sum([k \in DOMAIN sure |-> LET m == CHOOSE x \in fit[sure[k]] : TRUE IN Sum(m[1])])
             total == Len(sure) * units
             both == Sum([k \in DOMAIN sure |-> LET m == CHOOSE x \in fit[sure[k]] : TRUE IN IF m[1][1] = 1 /\ m[1][2] = 1 THEN 1 ELSE 0])
             p == One - rate
         IN  st' = First(<<
               <<"outputs-of-no-mask", \A k \in DOMAIN fit : fit[k] # {}>>,
               <<"dropout-rate", Len(sure) = Len(fit) => Near(kept, (total * p) \div One, Spread(total, p))>>,
               <<"units-depend", (Len(sure) = Len(fit) /\ units > 1) => Near(both, (Len(sure) * Mul(p, p)) \div One, Spread(Len(sure), Mul(p, p)))>> >>)
    /\ Report(st')

TError == /\ Ev.a = "error" /\ st' = "error" /\ Report(st')
TraceNext == /\ l <= Len(Case.ev) /\ st = "ok"
             /\ (TRefused \/ TNew \/ TRun \/ TTrain \/ TError)
             /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, st>>
=============================================================================
