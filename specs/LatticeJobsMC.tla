--------------------------- MODULE LatticeJobsMC ---------------------------
(* All short lists of paths and archives, read by all numbers of jobs.      *)
EXTENDS LatticeJobs

CONSTANTS MaxPaths, MaxJobs, MaxLines

VARIABLES list, jobs, arch, job, taken, pos, rd

vars == <<list, jobs, arch, job, taken, pos, rd>>

Names == [i \in 1..MaxPaths |-> <<"p", i>>]
Kinds == {"blank", "line"}
\* Paths in a list differ; some of the lines of the list are empty.
Init == /\ list \in UNION {[1..n -> {TRUE, FALSE}] : n \in 0..MaxPaths}
        /\ arch \in UNION {[1..n -> [k : Kinds]] : n \in 0..MaxLines}
        /\ (Len(arch) > 0 => list = <<TRUE>>)                \* one or the other
        /\ jobs \in 1..MaxJobs
        /\ job = 0 /\ taken = [j \in 0..(jobs - 1) |-> <<>>] /\ pos = 0 /\ rd = Reader0
Lines == [i \in DOMAIN list |-> IF list[i] THEN ToString(i) ELSE ""]
\* Jobs run one by one; in reality they do not depend on each other.
Run == /\ job < jobs
       /\ taken' = [taken EXCEPT ![job] = JobPaths(Paths(Lines), jobs, job)]
       /\ job' = job + 1 /\ UNCHANGED <<list, jobs, arch, pos, rd>>
ReadOne == /\ job = jobs /\ pos < Len(arch)
           /\ rd' = ReadLine(rd, arch[pos + 1]) /\ pos' = pos + 1
           /\ UNCHANGED <<list, jobs, arch, job, taken>>
Next == Run \/ ReadOne
Spec == Init /\ [][Next]_vars

Elems(s) == {s[i] : i \in DOMAIN s}
Done == job = jobs
EachOnce == Done =>
    /\ UNION {Elems(taken[j]) : j \in DOMAIN taken} = Elems(Paths(Lines))
    /\ \A j, k \in DOMAIN taken : j # k => Elems(taken[j]) \cap Elems(taken[k]) = {}
    /\ \A j \in DOMAIN taken : Cardinality(Elems(taken[j])) = Len(taken[j])
Balanced == Done => \A j, k \in DOMAIN taken : Len(taken[j]) - Len(taken[k]) \in {-1, 0, 1}
InOrder == Done => \A j \in DOMAIN taken : \A x, y \in DOMAIN taken[j] :
    x < y => \E a, b \in DOMAIN Lines : a < b /\ Lines[a] = taken[j][x] /\ Lines[b] = taken[j][y]
ReaderRight == Done /\ pos = Len(arch) =>
    /\ Len(ReadEnd(rd)) = Len(Archive(arch))
    /\ \A i \in DOMAIN ReadEnd(rd) : Len(ReadEnd(rd)[i]) = Len(Archive(arch)[i])
    /\ FlattenSeq(ReadEnd(rd)) = SelectSeq(arch, LAMBDA x : x.k # "blank")
=============================================================================
