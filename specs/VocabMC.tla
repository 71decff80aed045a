------------------------------ MODULE VocabMC ------------------------------
(* Building a vocabulary line by line, then counting occurrences.           *)
EXTENDS Vocab

CONSTANTS Words, Labels, MaxLines, MaxCount

VARIABLES v, stage, own

vars == <<v, stage, own>>

Init == v = Empty /\ stage = "lines" /\ own \in BOOLEAN   \* own: one class per word

ReadLine ==
    /\ stage = "lines" /\ Len(v.words) < MaxLines
    /\ \E w \in Words : \E l \in Labels : \E x \in {1, 3} :
          /\ ~Has(v, w)                         \* a repeated word is refused
          /\ v' = AddWord(v, w, IF own THEN w ELSE l, IF own THEN 1 ELSE x)
    /\ UNCHANGED <<stage, own>>

Close ==
    /\ stage = "lines"
    /\ \E S \in SUBSET Words :
          LET RECURSIVE Go(_, _)
              Go(u, T) == IF T = {} THEN u
                          ELSE LET w == CHOOSE w \in T : TRUE IN Go(AddOos(u, w), T \ {w})
          IN v' = Go(AddSpecials(v), S)
    /\ stage' = "built" /\ UNCHANGED own

Count ==
    /\ stage = "built"
    /\ \E c \in [Words -> 0..MaxCount] : \E u \in BOOLEAN : v' = Counted(v, c, u)
    /\ stage' = "counted" /\ UNCHANGED own

Next == ReadLine \/ Close \/ Count
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
OneToOne == Cardinality(Elems(v.words)) = Len(v.words)
SpecialsExist == stage # "lines" => \A w \in Special : Has(v, w) /\ InShort(v, w)
Prefix == Len(v.cls) <= Len(v.words) /\ Len(v.wt) = Len(v.cls)
Total1(S, f(_)) == SumOver(S, f)

\* Every distribution sums to one.
MembersSum == \A l \in Elems(v.cls) : SumOver(Members(v, l), LAMBDA i : v.wt[i]) = ClassTotal(v, l)
                                     /\ ClassTotal(v, l) > 0
PriorSum == (stage = "counted" /\ ShortTotal(v) > 0) =>
               SumOver(Elems(v.cls), LAMBDA l : Prior(v, l)[1]) = ShortTotal(v)
OosSum == (stage = "counted" /\ OosTotal(v) > 0) =>
             SumOver({w \in Elems(v.words) : ~InShort(v, w)}, LAMBDA w : OosShare(v, w)[1]) = OosTotal(v)
\* Everything is predicted through a shortlist word.
Stand == stage # "lines" => \A w \in Words : InShort(v, Stands(v, LookUp(v, w)))
\* A special word has a membership above zero even if it does not occur.
SpecialMember == stage # "lines" => \A w \in Special : Member(v, w)[1] > 0
=============================================================================
