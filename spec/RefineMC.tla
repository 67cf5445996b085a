------------------------------ MODULE RefineMC -------------------------------
(***************************************************************************)
(* The refinement process in every order of its single splits, over all    *)
(* criteria in bounds: it always ends, in the mesh Refine.tla defines,     *)
(* which is contained in every balanced mesh that honours the criterion.   *)
(***************************************************************************)
EXTENDS Refine, TLC
CONSTANTS L, Starts, Defect
VARIABLES B, hot, min, phase
vars == <<B, hot, min, phase>>

Quads(l) == {<<l, x, y>> : x \in 0..(Pow2(l) - 1), y \in 0..(Pow2(l) - 1)}
All == UNION {Quads(l) : l \in 0..(L - 1)}
RECURSIVE Anc(_)
Anc(q) == IF q[1] = 0 THEN {q} ELSE {q} \cup Anc(Up(q))
\* criteria: every set of hot quadrants ("all"), or those needed to reach one or two given quadrants of the finest splittable level
Criteria == CASE Starts = "all" -> SUBSET All
              [] Starts = "one" -> {Anc(q) : q \in All}
              [] Starts = "two" -> {Anc(p) \cup Anc(q) : p \in Quads(L - 1), q \in All}
Uniform(m) == UNION {Quads(l) : l \in 0..(m - 1)}
Init == /\ hot \in Criteria /\ min \in (IF Starts = "all" THEN 0..L ELSE {0}) /\ B = Uniform(min) /\ phase = "refine"
Splittable == {q \in Leaves(B) : q[1] < L /\ q \in hot}
Gap == IF Defect THEN 3 ELSE 2
Unbalanced == {q \in Leaves(B) : \E r \in Leaves(B) : r[1] >= q[1] + Gap /\ Touch(q, r, L)}
Refine == phase = "refine" /\ \E q \in Splittable : B' = B \cup {q} /\ UNCHANGED <<hot, min, phase>>
Switch == phase = "refine" /\ Splittable = {} /\ phase' = "balance" /\ UNCHANGED <<B, hot, min>>
Balance == phase = "balance" /\ \E q \in Unbalanced : B' = B \cup {q} /\ UNCHANGED <<hot, min, phase>>
End == phase = "balance" /\ Unbalanced = {} /\ phase' = "end" /\ UNCHANGED <<B, hot, min>>
Next == Refine \/ Switch \/ Balance \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Wanted == Balanced(Hot(Root, LAMBDA q : q \in hot, min, L))
Never2Far == B \subseteq Wanted                                             \* nothing unneeded is ever split
Result == phase = "end" => B = Wanted
Graded == phase = "end" => \A p, q \in Leaves(B) : Touch(p, q, L) => p[1] - q[1] \in -1..1
Floor == \A q \in Leaves(B) : q[1] >= min /\ q[1] <= (IF min > L THEN min ELSE L)
Ends == <>(phase = "end")
=============================================================================
