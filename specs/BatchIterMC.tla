---------------------------- MODULE BatchIterMC ----------------------------
(* Small configurations for exhaustive checking. *)
EXTENDS BatchIter

Ids == [w \in {"<s>", "</s>", "<unk>", "a", "b", "o"} |->
          CASE w = "<s>" -> 2 [] w = "</s>" -> 3 [] w = "<unk>" -> 4
            [] w = "a" -> 0 [] w = "b" -> 1 [] w = "o" -> 5]

K(fs, fr, ml, sh) ==
    [files |-> fs, frac |-> fr, maxlen |-> ml, shuffle |-> sh,
     ids |-> Ids, nshort |-> 5, oosunk |-> TRUE]

L1 == <<"a">>
L2 == <<"b", "o", "x">>
L3 == <<"<s>", "a", "b", "</s>">>

MCCfgs ==
    {K(fs, fr, ml, sh) :
        fs \in {<< <<L1>> , <<L2>> >>, << <<L1, <<>>, L2>>, <<L1>> >>, << <<L1, L1, L3>>, <<L2>> >>},
        fr \in {<<10, 10>>, <<5, 10>>, <<10, 20>>},
        ml \in {0, 2, 3}, sh \in {TRUE}}
    \cup
    {K(fs, <<10, 10>>, ml, FALSE) :
        fs \in {<< <<L1>> , <<L2>> >>, << <<L1, <<>>, L2>>, <<L1>> >>, << <<L3, L1, L3>>, <<L2, L2>> >>},
        ml \in {0, 2, 3, 4}}

Bound == epoch <= 2 /\ Len(tail) <= 1
=============================================================================
