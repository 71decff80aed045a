----------------------------- MODULE ModelFile -----------------------------
(* Network architectures and the model file they are stored in.             *)
(*                                                                          *)
(* An architecture is                                                       *)
(*   [inputs |-> <<[name |-> value]...>>,                                   *)
(*    layers |-> <<[opts |-> [name |-> value], inputs |-> <<layer names>>,  *)
(*                  devices |-> <<names>>]...>>,                            *)
(*    output |-> layer name]                                                *)
(* A model file is a set of attributes, addressed by a path of group names  *)
(* in which sequence elements are numbered, and a set of parameters.        *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Functions, TLC

(* ------------------------------------------------ architecture files --- *)
\* A line: [kind |-> first word, fields |-> <<[k, v, eq]...>>]; eq tells if
\* the field has an equals sign.
Comment(x) == x.kind = "" \/ x.kind = "#"
Keys(x) == {x.fields[i].k : i \in 1..Len(x.fields)}
\* The last value given for an option counts.
Val(x, k) == LET s == SelectSeq(x.fields, LAMBDA f : f.k = k) IN s[Len(s)].v
Vals(x, k) == LET s == SelectSeq(x.fields, LAMBDA f : f.k = k) IN [i \in 1..Len(s) |-> s[i].v]

BadLine(x) ==
    \/ x.kind \notin {"input", "layer"}
    \/ \E i \in 1..Len(x.fields) : ~x.fields[i].eq
    \/ "type" \notin Keys(x)
    \/ "name" \notin Keys(x)
    \/ x.kind = "layer" /\ "input" \notin Keys(x)

ReadInput(x) == [k \in Keys(x) |-> Val(x, k)]
ReadLayer(x) == [opts |-> [k \in Keys(x) \ {"input", "device"} |-> Val(x, k)],
                 inputs |-> Vals(x, "input"), devices |-> Vals(x, "device")]

Refused(lines) ==
    LET s == SelectSeq(lines, LAMBDA x : ~Comment(x)) IN
    \/ \E i \in 1..Len(s) : BadLine(s[i])
    \/ \A i \in 1..Len(s) : s[i].kind # "input"
    \/ \A i \in 1..Len(s) : s[i].kind # "layer"

Read(lines) ==
    LET ins == SelectSeq(lines, LAMBDA x : x.kind = "input")
        las == SelectSeq(lines, LAMBDA x : x.kind = "layer")
    IN  [inputs |-> [i \in 1..Len(ins) |-> ReadInput(ins[i])],
         layers |-> [i \in 1..Len(las) |-> ReadLayer(las[i])],
         output |-> Val(las[Len(las)], "name")]

(* ------------------------------------------------------- model files ---- *)
N(i) == ToString(i - 1)
\* The attributes an architecture is stored as.
Attributes(a) ==
    { <<<<"inputs", N(i), k>>, a.inputs[i][k]>> : <<i, k>> \in
        {<<i, k>> \in (1..Len(a.inputs)) \X UNION {DOMAIN a.inputs[i] : i \in 1..Len(a.inputs)} : k \in DOMAIN a.inputs[i]} }
    \cup
    { <<<<"layers", N(i), k>>, a.layers[i].opts[k]>> : <<i, k>> \in
        {<<i, k>> \in (1..Len(a.layers)) \X UNION {DOMAIN a.layers[i].opts : i \in 1..Len(a.layers)} : k \in DOMAIN a.layers[i].opts} }
    \cup UNION { { <<<<"layers", N(i), "inputs", N(j)>>, a.layers[i].inputs[j]>> : j \in 1..Len(a.layers[i].inputs) } : i \in 1..Len(a.layers) }
    \cup UNION { { <<<<"layers", N(i), "devices", N(j)>>, a.layers[i].devices[j]>> : j \in 1..Len(a.layers[i].devices) } : i \in 1..Len(a.layers) }
    \cup { <<<<"output">>, a.output>> }

AsFunction(S) == [p \in {x[1] : x \in S} |-> (CHOOSE x \in S : x[1] = p)[2]]
\* Writing over a file replaces values and leaves other attributes in place.
Write(file, a) == LET f == AsFunction(Attributes(a)) IN f @@ file

\* Numbered elements are read until a number is missing.
Count(file, prefix) ==
    LET Used(n) == \E p \in DOMAIN file : Len(p) > Len(prefix) /\ SubSeq(p, 1, Len(prefix)) = prefix
                                          /\ p[Len(prefix) + 1] = N(n)
    IN  CHOOSE n \in 0..Cardinality(DOMAIN file) : (\A i \in 1..n : Used(i)) /\ ~Used(n + 1)
Options(file, prefix) ==
    LET P == {p \in DOMAIN file : Len(p) = Len(prefix) + 1 /\ SubSeq(p, 1, Len(prefix)) = prefix}
    IN  [k \in {p[Len(p)] : p \in P} |-> file[Append(prefix, k)]]
Values(file, prefix) == [i \in 1..Count(file, prefix) |-> file[Append(prefix, N(i))]]

Restore(file) ==
    [inputs |-> [i \in 1..Count(file, <<"inputs">>) |-> Options(file, <<"inputs", N(i)>>)],
     layers |-> [i \in 1..Count(file, <<"layers">>) |->
                   [opts |-> Options(file, <<"layers", N(i)>>),
                    inputs |-> Values(file, <<"layers", N(i), "inputs">>),
                    devices |-> Values(file, <<"layers", N(i), "devices">>)]],
     output |-> file[<<"output">>]]

(* --------------------------------------------------- compatibility ------ *)
\* Inputs are identified by their type and name. Layers have to be the same,
\* except that a file may name more devices than are used.
SameInput(x, y) == x["type"] = y["type"] /\ x["name"] = y["name"]
SameLayer(x, f) == /\ x.opts = f.opts /\ x.inputs = f.inputs
                   /\ IsPrefix(x.devices, f.devices)
\* Options of inputs other than type and name mean nothing: a file that differs
\* only in them may be accepted or refused.
SameInputs(a, f) == \A i \in 1..Len(a.inputs) : a.inputs[i] = f.inputs[i]
Compatible(a, f) ==
    /\ Len(a.inputs) = Len(f.inputs) /\ Len(a.layers) = Len(f.layers)
    /\ \A i \in 1..Len(a.inputs) : SameInput(a.inputs[i], f.inputs[i])
    /\ \A i \in 1..Len(a.layers) : SameLayer(a.layers[i], f.layers[i])
    /\ a.output = f.output
=============================================================================
