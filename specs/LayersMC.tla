------------------------------- MODULE LayersMC ------------------------------
(* All small stacks of layers, with fixed but irregular parameters, on all  *)
(* short sentences.  The functions that the trace specification uses have   *)
(* the properties a language model needs.                                   *)
EXTENDS Layers
CONSTANTS Depth, MaxLen, Types

VARIABLES stack, out, word
vars == <<stack, out, word>>

El(kind, type, name, inputs) == [kind |-> kind, type |-> type, name |-> name, inputs |-> inputs, size |-> -1,
                                 activation |-> "", filter |-> IF type = "glu" THEN 2 ELSE -1, rate |-> -1, well |-> 1]
Name(i) == "h" \o Digit(i)
D == [el |-> <<El("input", "word", "in", <<>>), [El("layer", "projection", "p", <<"in">>) EXCEPT !.size = 2]>>
             \o [i \in DOMAIN stack |-> El("layer", stack[i], Name(i), <<IF i = 1 THEN "p" ELSE Name(i - 1)>>)]
             \o <<El("layer", out, "out", <<IF stack = <<>> THEN "p" ELSE Name(Len(stack))>>)>>,
      words |-> 3, classes |-> 3]
Prod(dims) == FoldLeft(LAMBDA a, n : a * n, 1, dims)
\* Values between -0.9 and 0.9 without a visible pattern.
Irregular(k, i) == (((k * 7919 + i * 104729) % 1801) - 900) * 100
Par == LET all == AllParams(D) IN
       [path \in {all[k][1] : k \in DOMAIN all} |->
          LET k == CHOOSE x \in DOMAIN all : all[x][1] = path
          IN  [path |-> path, dims |-> all[k][2], v |-> [i \in 1..Prod(all[k][2]) |-> Irregular(k, i)]]]
Run(w, skip, drop) == TLCEval(Output(D, Par, [word |-> w, class |-> w], skip, drop))

Init == stack = <<>> /\ out \in Outputs /\ word = <<>>
AddLayer == /\ word = <<>> /\ Len(stack) < Depth
            /\ \E t \in Types : stack' = Append(stack, t)
            /\ UNCHANGED <<out, word>>
AddWord == /\ Len(word) < MaxLen
           /\ \E w \in 1..3 : word' = Append(word, w)
           /\ UNCHANGED <<stack, out>>
Next == AddLayer \/ AddWord
Spec == Init /\ [][Next]_vars

Shapes == Buildable(D)
Eps(x) == FAbs(x) <= 20
SumsToOne == word # <<>> => \E o \in {Run(word, 0, <<>>)} : \A t \in DOMAIN o : Eps(Sum(o[t]) - One)
NotNegative == word # <<>> => \E o \in {Run(word, 0, <<>>)} : \A t \in DOMAIN o : \A x \in 1..3 : o[t][x] >= 0
\* Without bidirectional layers, nothing depends on later words.
Causal == (word # <<>> /\ ~Bidirectional(D)) =>
    \E o \in {Run(word, 0, <<>>)} : \A n \in 1..(Len(word) - 1) : Run(SubSeq(word, 1, n), 0, <<>>) = SubSeq(o, 1, n)
\* A bidirectional layer does not see the word to be predicted (later layers
\* that look at other time steps do).
NextWordUnseen == (Len(word) > 1 /\ \E i \in DOMAIN stack : /\ stack[i] \in Both
                      /\ \A j \in DOMAIN stack : j # i => stack[j] \notin Both /\ (j > i => stack[j] \notin Recurrent \cup {"glu"})) =>
    \E o \in {Run(word, 0, <<>>)} : \A t \in 1..(Len(word) - 1) : \A w \in 1..3 :
        (t + 1 = Len(word)) => Run([word EXCEPT ![t + 1] = w], 0, <<>>)[t] = o[t]
ExcludedGetsNothing == word # <<>> => \A skip \in 1..3 : \E o \in {Run(word, skip, <<>>)} :
    \A t \in DOMAIN o : o[t][skip] = 0 /\ Eps(Sum(o[t]) - One)
\* One word at a time, keeping the state of a recurrent layer.
StepsAgree == (Len(stack) = 1 /\ stack[1] \in Recurrent /\ word # <<>>) =>
    LET V == Par[P("p", "W")]
        X == [t \in DOMAIN word |-> [j \in 1..2 |-> V.v[(word[t] - 1) * 2 + j]]]
        G(x) == Affine(x, Par[P("h1", "layer_input/W")], Par[P("h1", "layer_input/b")])
        U == Par[P("h1", "step_input/W")]
        all == Unroll(stack[1], [t \in DOMAIN X |-> G(X[t])], U, 2, "")
    IN  all[Len(all)] = StepOf(stack[1], G(X[Len(X)]), IF Len(X) = 1 THEN Rest(2) ELSE all[Len(all) - 1], U, 2, "")
\* The mean of the outputs of a dropout layer over its masks is its input.
DropoutMean == (Len(stack) = 1 /\ stack[1] = "dropout" /\ Len(word) = 1) =>
    LET Mid(m) == Values(D, Par, [word |-> word, class |-> word], 0, m)[3][1]
        masks == SetToSeq(DropMasks(D))
    IN  \A j \in 1..2 : Eps(FoldLeft(LAMBDA a, k : a + Mid(masks[k])[j], 0, Idx(Len(masks)))
                            - 4 * Par[P("p", "W")].v[(word[1] - 1) * 2 + j])
=============================================================================
