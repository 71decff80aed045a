--------------------------- MODULE TrainStepTrace ---------------------------
(* Validates recorded training updates.  A case has the method, its options *)
(* o, the file weights w.  Vectors are network parameters and gradients.    *)
(*   update    a mini-batch b, the gradient G of each sentence alone, the   *)
(*             parameters before and after the update; the slots of the     *)
(*             optimizer are carried by the specification                   *)
(*   twin      two mini-batches b and b2 that differ at most in padding     *)
(*             or sentence order, trained from the same state and random    *)
(*             state: parameters before, after and after2                   *)
(*   scaled    the same mini-batch with all weights one, and with w         *)
(*   still     a mini-batch trained without learning rate or weights        *)
EXTENDS TrainStep, Json

VARIABLES c, l, st, s
vars == <<c, l, st, s>>

Cases == JsonDeserialize("cases.json")
Case == Cases[c]
Ev == Case.ev[l]
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(r) == IF r = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, r>>)

TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ st = "ok" /\ s = Slots0(Case.method, Case.n)

Nothing == 1390000                 \* what the recording has for NaN
Momentum == Case.method \in {"nesterov", "rmsprop-nesterov"}
NearV(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : FAbs(a[i] - b[i]) <= tol
\* What is trained: the unmasked words of the sentences, in any order.
Visible(b) == [i \in DOMAIN b |-> SelectSeq(b[i], LAMBDA p : p.m = 1)]
Bag(q) == [x \in ToSet(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
SameBatch(a, b) == Bag(Visible(a)) = Bag(Visible(b))

TUpdate ==
    /\ Ev.a = "update"
    /\ \E r \in {Update(Case.method, Ev.before, s, Ev.b, Ev.G, Case.w, Case.o)} :
         /\ s' = r.s
         /\ st' = First(<<
              <<"no-word-trained", NumWords(Ev.b) = 0 => NearV(Ev.after, r.p, Ev.tol)>>,
              <<"parameters", NearV(Ev.after, r.p, Ev.tol)>>,
              <<"step-norm", (Case.method = "sgd" /\ NearV(Ev.after, Ev.before, 200000)) =>
                    Norm([i \in DOMAIN Ev.after |-> Ev.after[i] - Ev.before[i]])
                        <= Mul(Mul(Case.o.lr, MeanWeight(Ev.b, Case.w)), Case.o.maxnorm) + 100>> >>)
    /\ Report(st')

TTwin ==
    /\ Ev.a = "twin"
    /\ s' = s
    /\ st' = First(<<
         <<"not-a-number", \A i \in DOMAIN Ev.after : Ev.after[i] # Nothing /\ Ev.after2[i] # Nothing>>,
         <<"twin-is-not-the-same", SameBatch(Ev.b, Ev.b2)>>,
         <<"padding-or-order", NearV(Ev.after, Ev.after2, 10)>> >>)
    /\ Report(st')

TScaled ==
    /\ Ev.a = "scaled"
    /\ s' = s
    /\ \E w \in {MeanWeight(Ev.b, Case.w)} :
         st' = First(<<
           <<"weights", \A i \in DOMAIN Ev.before :
                FAbs((Ev.after2[i] - Ev.before[i]) - Mul(w, Ev.after[i] - Ev.before[i])) <= 10>> >>)
    /\ Report(st')

TStill ==
    /\ Ev.a = "still"
    /\ s' = s
    /\ st' = First(<< <<"changed", ~Momentum => NearV(Ev.after, Ev.before, 0)>> >>)
    /\ Report(st')

TOther == /\ Ev.a \notin {"update", "twin", "scaled", "still"} /\ s' = s /\ st' = "exception" /\ Report(st')
TraceNext == st = "ok" /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c
             /\ (TUpdate \/ TTwin \/ TScaled \/ TStill \/ TOther)
=============================================================================
