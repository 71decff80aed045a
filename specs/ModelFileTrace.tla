-------------------------- MODULE ModelFileTrace --------------------------
(* Validates recorded uses of architectures, networks and model files:      *)
(*   describe  a description was read (lines), into slot k: refused or arch *)
(*   save      the architecture of slot k was written to the file           *)
(*   restore   an architecture was read from the file                       *)
(*   check     slot k was compared with the file: accepted or refused       *)
(*   net       a network was built from slot k: its parameters and outputs  *)
(*   train     its parameters were changed                                  *)
(*   store     the network was written to the file                          *)
(*   load      a network was built from the file                            *)
(*   into      the file was loaded into a network built from slot k         *)
(*   lose      a parameter was removed from the file                        *)
(* Parameters are a function from paths to digests; the outputs of a        *)
(* network are a digest.                                                    *)
EXTENDS ModelFile, Json

VARIABLES c, l, st, a, file, net, fnet, seen

Cases == JsonDeserialize("cases.json")
Ev == Cases[c].ev[l]
First(cl) == LET b == SelectSeq(cl, LAMBDA x : ~x[2]) IN IF b = <<>> THEN "ok" ELSE b[1][1]
Report(s) == IF s = "ok" THEN TRUE ELSE PrintT(<<"REJECT", c, l, s>>)

\* Of the inputs, only what was described is compared: building a network adds
\* derived values.
Covers(f, g) == \A k \in DOMAIN g : k \in DOMAIN f /\ f[k] = g[k]
Differences(o, w) == <<
    <<"inputs-differ", Len(o.inputs) = Len(w.inputs) /\ \A i \in 1..Len(w.inputs) : Covers(o.inputs[i], w.inputs[i])>>,
    <<"number-of-layers", Len(o.layers) = Len(w.layers)>>,
    <<"layer-options-differ", Len(o.layers) = Len(w.layers) => \A i \in 1..Len(w.layers) : o.layers[i].opts = w.layers[i].opts>>,
    <<"layer-inputs-differ", Len(o.layers) = Len(w.layers) => \A i \in 1..Len(w.layers) : o.layers[i].inputs = w.layers[i].inputs>>,
    <<"layer-devices-differ", Len(o.layers) = Len(w.layers) => \A i \in 1..Len(w.layers) : o.layers[i].devices = w.layers[i].devices>>,
    <<"output-layer-differs", o.output = w.output>> >>

TraceInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ st = "ok"
             /\ a = <<>> /\ file = <<>> /\ net = <<>> /\ fnet = <<>> /\ seen = {}

TDescribe ==
    /\ Ev.a = "describe"
    /\ st' = (IF Refused(Ev.lines) THEN (IF Ev.refused THEN "ok" ELSE "bad-description-accepted")
              ELSE IF Ev.refused THEN "description-refused" ELSE First(Differences(Ev.arch, Read(Ev.lines))))
    /\ a' = IF Refused(Ev.lines) THEN a ELSE (Ev.slot :> Read(Ev.lines)) @@ a
    /\ Report(st') /\ UNCHANGED <<file, net, fnet, seen>>

TSave == /\ Ev.a = "save" /\ file' = <<a[Ev.slot]>> /\ st' = "ok" /\ UNCHANGED <<a, net, fnet, seen>>

TRestore == /\ Ev.a = "restore" /\ st' = First(Differences(Ev.arch, file[1]))
            /\ Report(st') /\ UNCHANGED <<a, file, net, fnet, seen>>

TCheck ==
    /\ Ev.a = "check"
    /\ LET same == Compatible(a[Ev.slot], file[1]) IN
       st' = (IF same /\ SameInputs(a[Ev.slot], file[1]) /\ Ev.refused THEN "same-architecture-refused"
              ELSE IF ~same /\ ~Ev.refused THEN "different-architecture-accepted" ELSE "ok")
    /\ Report(st') /\ UNCHANGED <<a, file, net, fnet, seen>>

\* seen: <<parameters, outputs>> of the networks of the file's architecture;
\* equal parameters give equal outputs.
Functional(p, o) == \A x \in seen : x[1] = p => x[2] = o

TNet == /\ Ev.a = "net"
        /\ st' = First(Differences(Ev.arch, a[Ev.slot]))
        /\ net' = <<Ev.slot, Ev.par>> /\ seen' = {<<Ev.par, Ev.out>>}
        /\ Report(st') /\ UNCHANGED <<a, file, fnet>>
TTrain == /\ Ev.a = "train" /\ net' = <<net[1], Ev.par>>
          /\ st' = First(<< <<"parameters-appeared-or-vanished", DOMAIN Ev.par = DOMAIN net[2]>>,
                            <<"parameters-not-changed", \A p \in DOMAIN Ev.par : Ev.par[p] # net[2][p]>>,
                            <<"outputs-differ-for-same-parameters", Functional(Ev.par, Ev.out)>> >>)
          /\ seen' = seen \cup {<<Ev.par, Ev.out>>}
          /\ Report(st') /\ UNCHANGED <<a, file, fnet>>
TStore == /\ Ev.a = "store" /\ fnet' = net[2] /\ file' = <<a[net[1]]>>
          /\ st' = "ok" /\ UNCHANGED <<a, net, seen>>
Loaded(out) == << <<"parameters-differ", Ev.par = fnet>>,
                  <<"outputs-differ", Functional(fnet, out)>> >>
TLoad == /\ Ev.a = "load"
         /\ st' = (IF Ev.refused THEN (IF DOMAIN fnet = DOMAIN net[2] THEN "own-file-refused" ELSE "ok")
                   ELSE IF DOMAIN fnet # DOMAIN net[2] THEN "missing-parameter-accepted"
                   ELSE First(Differences(Ev.arch, file[1]) \o Loaded(Ev.out)))
         /\ Report(st') /\ UNCHANGED <<a, file, net, fnet, seen>>
TInto == /\ Ev.a = "into"
         /\ LET same == Compatible(a[Ev.slot], file[1]) /\ DOMAIN fnet = DOMAIN net[2] IN
            st' = (IF same THEN (IF Ev.refused THEN "own-file-refused" ELSE First(Loaded(Ev.out)))
                   ELSE IF Ev.refused THEN "ok" ELSE "incompatible-file-accepted")
         /\ Report(st') /\ UNCHANGED <<a, file, net, fnet, seen>>
TLose == /\ Ev.a = "lose" /\ fnet' = [p \in DOMAIN fnet \ {Ev.path} |-> fnet[p]]
         /\ st' = "ok" /\ UNCHANGED <<a, file, net, seen>>

TOther == /\ Ev.a \notin {"describe", "save", "restore", "check", "net", "train", "store", "load", "into", "lose"}
          /\ st' = "exception" /\ Report(st') /\ UNCHANGED <<a, file, net, fnet, seen>>

TraceNext == /\ st = "ok" /\ l <= Len(Cases[c].ev) /\ l' = l + 1 /\ UNCHANGED c
             /\ (TDescribe \/ TSave \/ TRestore \/ TCheck \/ TNet \/ TTrain \/ TStore \/ TLoad \/ TInto \/ TLose \/ TOther)
=============================================================================
