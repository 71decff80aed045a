-------------------------------- MODULE Layers -------------------------------
(* What a network description means: the parameters that its layers have,   *)
(* and the output that a network with given parameters computes for one     *)
(* sentence.  Numbers are fixed point, in units of 0.00001.                 *)
(*                                                                          *)
(* A description is a sequence of elements.  Inputs have kind "input", type *)
(* and name; layers have kind "layer", type, name, inputs (names), size     *)
(* (-1 if not given), activation ("" if not given), filter (-1) and rate    *)
(* (-1, the probability of dropping an output); well = 0 if a field has no  *)
(* value.  The last one is the output layer; its size is the number of      *)
(* classes.  A parameter has path, dims and its values v in row-major order.*)
EXTENDS Fixed, FiniteSets, TLC

Idx(n) == [i \in 1..n |-> i]
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
CeilSqrt(n) == CHOOSE k \in 1..n : k * k >= n /\ (k - 1) * (k - 1) < n

Recurrent == {"gru", "lstm"}
Both == {"bgru", "blstm"}
Plain == {"fc", "tanh"}
Gated == {"highway", "highwaytanh"}
Outputs == {"softmax", "hsoftmax"}
Kinds == {"projection", "add", "glu", "dropout"} \cup Recurrent \cup Both \cup Plain \cup Gated \cup Outputs
Activations == {"", "tanh", "relu", "leakyrelu"}

------------------------------------------------------------------------------
(* Structure.                                                               *)
Words(D) == D.words
Position(D, name) == CHOOSE i \in DOMAIN D.el : D.el[i].name = name
Known(D, i, name) == \E j \in 1..(i - 1) : D.el[j].name = name
Final(D) == Len(D.el)

\* Sizes of all the elements, in order.
Sizes(D) == FoldLeft(LAMBDA acc, i :
    LET e == D.el[i]
        in == [k \in DOMAIN e.inputs |-> acc[Position(D, e.inputs[k])]]
        size == IF e.kind = "input" THEN (IF e.type = "word" THEN D.words ELSE D.classes)
                ELSE IF i = Final(D) THEN D.classes
                ELSE IF e.size # -1 THEN e.size
                ELSE IF e.type = "add" THEN in[1]
                ELSE Sum(in)
    IN  Append(acc, size), <<>>, Idx(Len(D.el)))
InSizes(D, Z, i) == [k \in DOMAIN D.el[i].inputs |-> Z[Position(D, D.el[i].inputs[k])]]
InSize(D, Z, i) == Sum(InSizes(D, Z, i))

\* Can a network be built from the description?
Describes(D) ==
    /\ \E i \in DOMAIN D.el : D.el[i].kind = "input"
    /\ \E i \in DOMAIN D.el : D.el[i].kind = "layer"
    /\ \A i \in DOMAIN D.el : LET e == D.el[i] IN
         /\ e.well = 1 /\ e.name # "" /\ e.type # ""
         /\ IF e.kind = "input" THEN e.type \in {"word", "class"}
            ELSE /\ e.kind = "layer" /\ e.type \in Kinds
                 /\ e.inputs # <<>> /\ \A k \in DOMAIN e.inputs : Known(D, i, e.inputs[k])
                 /\ e.activation \in Activations
Fits(D) == \E Z \in {Sizes(D)} : \A i \in DOMAIN D.el :
    (D.el[i].kind = "layer" /\ D.el[i].type \in Gated \cup {"dropout"}) => Z[i] = InSize(D, Z, i)
Buildable(D) == Describes(D) /\ Fits(D)

P(name, rest) == "layers/" \o name \o "/" \o rest
Param(name, rest, dims) == <<P(name, rest), dims>>
GateParams(name, n, m, gates) ==
    <<Param(name, "layer_input/W", <<n, m * gates>>), Param(name, "layer_input/b", <<m * gates>>),
      Param(name, "step_input/W", <<m, m * gates>>)>>
GatesOf(type) == IF type \in {"lstm", "blstm"} THEN 4 ELSE 3
Backward(size) == size \div 2
Forward(size) == size - Backward(size)
Level1(n) == CeilSqrt(n)
Level2(n) == CeilDiv(n, Level1(n))
Digit(k) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[k + 1]
LayerParams(D, Z, i) ==
    LET e == D.el[i]
        n == InSize(D, Z, i)
        m == Z[i]
    IN  IF e.kind = "input" THEN <<>> ELSE
        CASE e.type = "projection" -> <<Param(e.name, "W", <<n, m>>)>>
          [] e.type \in Plain \cup {"softmax"} -> <<Param(e.name, "input/W", <<n, m>>), Param(e.name, "input/b", <<m>>)>>
          [] e.type = "add" -> FlattenSeq([k \in DOMAIN e.inputs |->
                 IF InSizes(D, Z, i)[k] = m THEN <<>>
                 ELSE <<Param(e.name, "input" \o Digit(k - 1) \o "/W", <<InSizes(D, Z, i)[k], m>>)>>])
          [] e.type \in Gated -> <<Param(e.name, "input/W", <<n, 2 * m>>), Param(e.name, "input/b", <<2 * m>>)>>
          [] e.type = "glu" -> <<Param(e.name, "input/W", <<IF e.filter = -1 THEN 5 ELSE e.filter, n, 2 * m>>),
                                 Param(e.name, "input/b", <<2 * m>>)>>
          [] e.type \in Recurrent -> GateParams(e.name, n, m, GatesOf(e.type))
          [] e.type \in Both -> GateParams(e.name \o "/forward", n, Forward(m), GatesOf(e.type))
                                \o GateParams(e.name \o "/backward", n, Backward(m), GatesOf(e.type))
          [] e.type = "hsoftmax" ->
                 <<Param(e.name, "input/W", <<n, Level1(m)>>), Param(e.name, "input/b", <<Level1(m)>>),
                   Param(e.name, "level1/W", <<Level1(m), n, Level2(m)>>), Param(e.name, "level1/b", <<Level1(m), Level2(m)>>)>>
          [] OTHER -> <<>>
AllParams(D) == LET Z == Sizes(D) IN FlattenSeq([i \in DOMAIN D.el |-> LayerParams(D, Z, i)])

\* Biases of a new network.  Without class probabilities all the biases are
\* zero, except those of gates.
Repeated(values, m) == FlattenSeq([g \in DOMAIN values |-> [j \in 1..m |-> values[g]]])
NewBias(D, Z, i, dims, prior) ==
    LET e == D.el[i] IN
    CASE e.type \in {"lstm", "blstm"} -> Repeated(<<-One, One, -One, 0>>, dims[1] \div 4)
      [] e.type \in Gated -> Repeated(<<0, -2 * One>>, dims[1] \div 2)
      [] e.type = "softmax" /\ prior # <<>> -> [x \in DOMAIN prior |-> IF prior[x] = 0 THEN -2302585 ELSE Ln(prior[x])]
      [] OTHER -> Repeated(<<0>>, IF Len(dims) = 1 THEN dims[1] ELSE dims[1] * dims[2])

------------------------------------------------------------------------------
(* The functions of the layers.  p is a parameter; its columns are grouped  *)
(* in gates of m.                                                           *)
Sig(x) == IF x >= 0 THEN Div(One, One + Exp(-x)) ELSE LET e == Exp(x) IN Div(e, One + e)
Tanh(x) == IF x > 650000 THEN One ELSE IF x < -650000 THEN -One ELSE 2 * Sig(2 * x) - One
Act(a, x) == CASE a = "relu" -> Max2(x, 0)
               [] a = "leakyrelu" -> IF x >= 0 THEN x ELSE Mul(30000, x)
               [] OTHER -> Tanh(x)
Cols(p) == p.dims[Len(p.dims)]
\* Column j of the product of a vector and the matrix that starts at a row.
DotFrom(x, p, row, j) == FoldLeft(LAMBDA a, i : a + Mul(x[i], p.v[(row + i - 1) * Cols(p) + j]), 0, Idx(Len(x)))
Times(x, p) == TLCEval([j \in 1..Cols(p) |-> DotFrom(x, p, 0, j)])
Affine(x, W, b) == TLCEval([j \in 1..Cols(W) |-> DotFrom(x, W, 0, j) + b.v[j]])
Plus(x, y) == TLCEval([j \in DOMAIN x |-> x[j] + y[j]])
Zeros(n) == [j \in 1..n |-> 0]
Softmax(a) ==
    LET top == FoldLeft(Max2, a[1], a)
        e == TLCEval([j \in DOMAIN a |-> Exp(a[j] - top)])
        s == Sum(e)
    IN  [j \in DOMAIN a |-> Div(e[j], s)]
\* Softmax where some of the outputs are impossible.
SoftmaxOf(a, possible) ==
    LET cand == SelectSeq(Idx(Len(a)), LAMBDA j : j \in possible)
        q == TLCEval(Softmax([k \in DOMAIN cand |-> a[cand[k]]]))
    IN  [j \in DOMAIN a |-> IF j \in possible THEN q[Cardinality({k \in possible : k <= j})] ELSE 0]

\* One time step of a recurrent layer: x is the pre-activation of its input.
LstmStep(x, s, U, m, act) ==
    LET a == Plus(x, Times(s.h, U))
        c == TLCEval([j \in 1..m |-> Mul(Sig(a[m + j]), s.c[j]) + Mul(Sig(a[j]), Tanh(a[3 * m + j]))])
    IN  [c |-> c, h |-> TLCEval([j \in 1..m |-> Mul(Sig(a[2 * m + j]), Act(act, c[j]))])]
GruStep(x, s, U, m) ==
    LET a == Times(s.h, U)
        h == TLCEval([j \in 1..m |->
                LET r == Sig(a[j] + x[j])
                    u == Sig(a[m + j] + x[m + j])
                    cand == Tanh(Mul(a[2 * m + j], r) + x[2 * m + j])
                IN  Mul(One - u, s.h[j]) + Mul(u, cand)])
    IN  [c |-> Zeros(m), h |-> h]
StepOf(type, x, s, U, m, act) == IF type \in {"lstm", "blstm"} THEN LstmStep(x, s, U, m, act) ELSE GruStep(x, s, U, m)
Rest(m) == [c |-> Zeros(m), h |-> Zeros(m)]
\* States of a recurrent layer for a sequence of pre-activations.
Unroll(type, X, U, m, act) == FoldLeft(LAMBDA acc, t :
    Append(acc, TLCEval(StepOf(type, X[t], IF acc = <<>> THEN Rest(m) ELSE acc[Len(acc)], U, m, act))), <<>>, Idx(Len(X)))
Hs(states) == [t \in DOMAIN states |-> states[t].h]
\* The backward half sees the words after the one to be predicted: the
\* input of the next time step is the predicted word.
Later(X, n) == [t \in DOMAIN X |-> IF t + 2 <= Len(X) THEN X[t + 2] ELSE Zeros(n)]

HSoftmax(x, n, W, b, W1, b1, possible) ==
    LET l1 == Level1(n)
        l2 == Level2(n)
        rows == {r \in 1..l1 : \E k \in 1..l2 : (r - 1) * l2 + k \in possible}
        top == TLCEval(SoftmaxOf(Affine(x, W, b), rows))
        sub == TLCEval([r \in 1..l1 |-> IF r \notin rows THEN Zeros(l2) ELSE
                  SoftmaxOf([k \in 1..l2 |-> DotFrom(x, W1, (r - 1) * Len(x), k) + b1.v[(r - 1) * l2 + k]],
                            {k \in 1..l2 : (r - 1) * l2 + k \in possible})])
    IN  [j \in 1..n |-> Mul(top[(j - 1) \div l2 + 1], sub[(j - 1) \div l2 + 1][((j - 1) % l2) + 1])]

------------------------------------------------------------------------------
(* The output of a network.  par is a function from paths to parameters.    *)
(* in.word and in.class give the word and class, from one, of every time    *)
(* step; skip is the class that is excluded, or 0; drop is a sequence of    *)
(* masks for the dropout layers of one time step, <<>> when not training.   *)
Joined(D, vals, i, t) == FlattenSeq([k \in DOMAIN D.el[i].inputs |-> vals[Position(D, D.el[i].inputs[k])][t]])
DropId(D, i) == Cardinality({j \in 1..i : D.el[j].kind = "layer" /\ D.el[j].type = "dropout"})
RateOf(e) == IF e.rate = -1 THEN 50000 ELSE e.rate

LayerOut(D, Z, par, vals, i, T, skip, drop) ==
    LET e == D.el[i]
        m == Z[i]
        X == TLCEval([t \in 1..T |-> Joined(D, vals, i, t)])
        W == par[P(e.name, "input/W")]
        b == par[P(e.name, "input/b")]
        Gates(name) == TLCEval([t \in 1..T |-> Affine(X[t], par[P(name, "layer_input/W")], par[P(name, "layer_input/b")])])
    IN
    CASE e.type = "projection" ->
             LET V == par[P(e.name, "W")] IN [t \in 1..T |-> [j \in 1..m |-> V.v[(X[t][1] - 1) * m + j]]]
      [] e.type \in Plain -> [t \in 1..T |-> LET a == Affine(X[t], W, b) IN TLCEval([j \in 1..m |-> Act(e.activation, a[j])])]
      [] e.type \in Gated -> [t \in 1..T |-> LET a == Affine(X[t], W, b) IN
             TLCEval([j \in 1..m |-> LET g == Sig(a[m + j]) IN Mul(Act(e.activation, a[j]), g) + Mul(X[t][j], One - g)])]
      [] e.type = "add" -> [t \in 1..T |-> FoldLeft(LAMBDA a, k :
             LET x == vals[Position(D, e.inputs[k])][t] IN
             Plus(a, IF Len(x) = m THEN x ELSE Times(x, par[P(e.name, "input" \o Digit(k - 1) \o "/W")])), Zeros(m), Idx(Len(e.inputs)))]
      [] e.type = "glu" ->
             LET f == W.dims[1]
                 n == W.dims[2]
                 At(t) == IF t < 1 THEN Zeros(n) ELSE X[t]
             IN  [t \in 1..T |->
                   LET window == FlattenSeq([d \in 1..f |-> At(t - f + d)])
                       a == Affine(window, W, b)
                   IN  TLCEval([j \in 1..m |-> Mul(a[j], Sig(a[m + j]))])]
      [] e.type \in Recurrent -> Hs(Unroll(e.type, Gates(e.name), par[P(e.name, "step_input/W")], m, e.activation))
      [] e.type \in Both ->
             LET fw == Hs(Unroll(e.type, Gates(e.name \o "/forward"), par[P(e.name, "forward/step_input/W")], Forward(m), e.activation))
                 pre == Gates(e.name \o "/backward")
                 late == Later(pre, Backward(m) * GatesOf(e.type))
                 bw == Hs(Unroll(e.type, Reverse(late), par[P(e.name, "backward/step_input/W")], Backward(m), e.activation))
             IN  [t \in 1..T |-> fw[t] \o Reverse(bw)[t]]
      [] e.type = "dropout" -> IF drop = <<>> THEN X ELSE
             [t \in 1..T |-> [j \in 1..m |-> IF drop[DropId(D, i)][j] = 1 THEN Div(X[t][j], One - RateOf(e)) ELSE 0]]
      [] e.type = "softmax" -> [t \in 1..T |-> TLCEval(SoftmaxOf(Affine(X[t], W, b), (1..m) \ {skip}))]
      [] e.type = "hsoftmax" -> [t \in 1..T |->
             TLCEval(HSoftmax(X[t], m, W, b, par[P(e.name, "level1/W")], par[P(e.name, "level1/b")], (1..m) \ {skip}))]

Values(D, par, in, skip, drop) ==
    LET Z == Sizes(D)
        T == Len(in.word)
    IN  FoldLeft(LAMBDA vals, i :
            LET e == D.el[i] IN
            Append(vals, TLCEval(IF e.kind = "input" THEN [t \in 1..T |-> <<IF e.type = "word" THEN in.word[t] ELSE in.class[t]>>]
                                 ELSE LayerOut(D, Z, par, vals, i, T, skip, drop))), <<>>, Idx(Len(D.el)))
Output(D, par, in, skip, drop) == Values(D, par, in, skip, drop)[Final(D)]
Bidirectional(D) == \E i \in DOMAIN D.el : D.el[i].kind = "layer" /\ D.el[i].type \in Both
Stepwise(D) == \A i \in DOMAIN D.el : D.el[i].kind = "layer" => D.el[i].type \notin Both \cup {"glu"}
DropMasks(D) ==
    LET Z == Sizes(D)
        ids == SelectSeq(Idx(Len(D.el)), LAMBDA i : D.el[i].kind = "layer" /\ D.el[i].type = "dropout")
    IN  IF Len(ids) = 1 THEN {<<f>> : f \in [1..Z[ids[1]] -> {0, 1}]}
        ELSE {<<f, g>> : f \in [1..Z[ids[1]] -> {0, 1}], g \in [1..Z[ids[2]] -> {0, 1}]}
=============================================================================
