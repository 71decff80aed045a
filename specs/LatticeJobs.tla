---------------------------- MODULE LatticeJobs ----------------------------
(* Division of lattices to jobs, and the outputs of the decode command.     *)
(*                                                                          *)
(* A lattice list is a sequence of paths; an empty line is not a path.  A   *)
(* Kaldi archive is a sequence of lines [k, ...]: "blank", or a line of a   *)
(* lattice, the first of which names it.                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Paths(lines) == SelectSeq(lines, LAMBDA x : x # "")
\* Every J:th path, counting from the number of the job; 0 is the first job.
JobPaths(paths, jobs, job) ==
    LET mine == SelectSeq([i \in DOMAIN paths |-> [i |-> i, p |-> paths[i]]],
                          LAMBDA x : (x.i - 1) % jobs = job)
    IN  [i \in DOMAIN mine |-> mine[i].p]

\* The lattices of an archive: the longest runs of lines that are not blank.
Archive(lines) ==
    LET D == DOMAIN lines
        blank(i) == i \notin D \/ lines[i].k = "blank"
        starts == SelectSeq([i \in D |-> i], LAMBDA i : ~blank(i) /\ blank(i - 1))
        stop(i) == CHOOSE j \in i..Len(lines) : blank(j + 1) /\ \A k \in i..j : ~blank(k)
    IN  [n \in DOMAIN starts |-> SubSeq(lines, starts[n], stop(starts[n]))]

-----------------------------------------------------------------------------
(* Reading an archive line by line. *)
Reader0 == [cur |-> <<>>, out |-> <<>>]
ReadLine(r, line) == IF line.k # "blank" THEN [r EXCEPT !.cur = Append(@, line)]
                     ELSE [cur |-> <<>>, out |-> IF r.cur = <<>> THEN r.out ELSE Append(r.out, r.cur)]
ReadEnd(r) == IF r.cur = <<>> THEN r.out ELSE Append(r.out, r.cur)

-----------------------------------------------------------------------------
(* Outputs: the best n hypotheses of each lattice, in order. *)
Best(toks, n) == SubSeq(toks, 1, IF n < Len(toks) THEN n ELSE Len(toks))
OutputLines(lats, n) ==
    FlattenSeq([i \in DOMAIN lats |-> LET b == Best(lats[i].toks, n) IN
                                      [j \in DOMAIN b |-> [utt |-> lats[i].utt, t |-> b[j]]]])
\* A setting given as an option replaces that of the lattice.
Setting(opt, own) == IF opt.has THEN opt ELSE own
=============================================================================
