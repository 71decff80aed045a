---------------------------- MODULE ModelFileMC ----------------------------
(* Two networks of any small architectures, a model file, and every         *)
(* interleaving of changing parameters, saving, loading and losing a        *)
(* parameter.                                                               *)
EXTENDS ModelFile

CONSTANTS Names, OptNames, OptValues, Paths, Layers

VARIABLES arch, par, file, fpar, src, err

vars == <<arch, par, file, fpar, src, err>>

InputSet == {[type |-> t, name |-> n] : t \in {"word", "class"}, n \in {"i"}}
Opts == UNION {[D -> OptValues] : D \in SUBSET OptNames}
LayerSet == {[opts |-> o, inputs |-> s, devices |-> d] :
                o \in Opts, s \in {<<x>> : x \in Names} \cup {<<x, y>> : x, y \in Names},
                d \in {<<>>, <<"g">>}}
L0 == [opts |-> [k \in OptNames |-> CHOOSE x \in OptValues : TRUE], inputs |-> <<"x", "y">>, devices |-> <<>>]
ArchSet == {[inputs |-> s, layers |-> t, output |-> o] :
               s \in {<<x>> : x \in InputSet},
               t \in {<<x>> : x \in LayerSet} \cup {<<x, L0>> : x \in LayerSet}
                      \cup {<<L0, x>> : x \in LayerSet},
               o \in Names}
\* Parameters of an architecture: one per layer (values are versions).
PathsOf(a) == {p \in Paths : p <= Len(a.layers)}

\* The saved architecture, up to symmetry.
First(a) == /\ a.inputs[1].type = "word" /\ a.output = "x" /\ Len(a.layers) <= Layers
            /\ a.layers[1].inputs[1] = "x" /\ (Len(a.layers) = 2 => a.layers[2] = L0)
Init == /\ arch \in {<<a, b>> : a \in {x \in ArchSet : First(x)}, b \in ArchSet}
        /\ par = [n \in 1..2 |-> [p \in PathsOf(arch[n]) |-> 0]]
        /\ file = <<>> /\ fpar = <<>> /\ src = 0 /\ err = FALSE

Train(n) == /\ ~err /\ \A p \in DOMAIN par[n] : par[n][p] < 2
            /\ par' = [par EXCEPT ![n] = [p \in DOMAIN @ |-> @[p] + n]]
            /\ UNCHANGED <<arch, file, fpar, src, err>>
\* A training process writes only to a file of its own architecture.
Save == /\ ~err /\ src' = 1
        /\ file' = Write(file, arch[1]) /\ fpar' = par[1] @@ fpar
        /\ UNCHANGED <<arch, par, err>>
Lose == /\ src = 1 /\ ~err /\ DOMAIN fpar = DOMAIN par[1]
        /\ \E p \in DOMAIN fpar : fpar' = [q \in DOMAIN fpar \ {p} |-> fpar[q]]
        /\ UNCHANGED <<arch, par, file, src, err>>
Load(n) == /\ src = 1 /\ ~err
           /\ IF DOMAIN par[n] \subseteq DOMAIN fpar /\ Compatible(arch[n], Restore(file))
              THEN par' = [par EXCEPT ![n] = [p \in DOMAIN par[n] |-> fpar[p]]] /\ err' = FALSE
              ELSE err' = TRUE /\ UNCHANGED par
           /\ UNCHANGED <<arch, file, fpar, src>>
Next == Train(1) \/ Train(2) \/ Save \/ Lose \/ Load(1) \/ Load(2)
Spec == Init /\ [][Next]_vars

\* What is read back is what was saved.
RoundTrip == src = 1 => Restore(file) = arch[1]
\* Only an equal architecture accepts the file (extra devices in the file set
\* aside), so an accepted load reproduces the saved network.
SameDevices(a, b) == [a EXCEPT !.layers = [i \in 1..Len(@) |-> [@[i] EXCEPT !.devices = <<>>]]]
                   = [b EXCEPT !.layers = [i \in 1..Len(@) |-> [@[i] EXCEPT !.devices = <<>>]]]
Exact == [][\A n \in 1..2 : Load(n) /\ ~err' =>
              SameDevices(arch[n], arch[1]) /\ par'[n] = [p \in DOMAIN par[1] |-> fpar[p]]]_vars
SelfLoads == [][Load(1) /\ DOMAIN fpar = DOMAIN par[1] => ~err']_vars
=============================================================================
