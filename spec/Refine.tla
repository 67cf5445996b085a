------------------------------- MODULE Refine --------------------------------
(***************************************************************************)
(* Refinement of the unit quadtree by a criterion.  A quadrant is          *)
(* <<l, x, y>>: level l, position in units of its own size.  First every   *)
(* patch below the maximum level on which the criterion holds is split,    *)
(* from the uniform mesh of the minimum level downwards; then leaves that  *)
(* touch a leaf two or more levels finer, at an edge or a corner, are      *)
(* split until there are none.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Pow2(k) == 2 ^ k
Up(q) == <<q[1] - 1, q[2] \div 2, q[3] \div 2>>
Down(q) == {<<q[1] + 1, 2 * q[2] + i, 2 * q[3] + j>> : i \in 0..1, j \in 0..1}
Root == <<0, 0, 0>>
Around(q) == {r \in {<<q[1], q[2] + i, q[3] + j>> : i \in -1..1, j \in -1..1} :
                 r[2] >= 0 /\ r[2] < Pow2(q[1]) /\ r[3] >= 0 /\ r[3] < Pow2(q[1])}
Leaves(B) == ({Root} \cup UNION {Down(q) : q \in B}) \ B

\* branches of the mesh after the criterion has been applied; hot(q): the criterion holds at a cell centre of q
RECURSIVE Hot(_, _, _, _)
Hot(q, hot(_), min, max) ==
  IF q[1] < min \/ (q[1] < max /\ hot(q)) THEN {q} \cup UNION {Hot(r, hot, min, max) : r \in Down(q)} ELSE {}

\* what a branch q demands besides its own ancestors: a quadrant touching q must be covered by leaves no coarser than q
Demands(q) == IF q[1] = 0 THEN {} ELSE {Up(r) : r \in Around(q)}
\* one sweep from the finest level up suffices: a branch of level l demands branches of level l-1 only
RECURSIVE Sweep(_, _)
Sweep(B, l) == IF l = 0 THEN B ELSE Sweep(B \cup UNION {Demands(q) : q \in {r \in B : r[1] = l}}, l - 1)
Balanced(B) == Sweep(B, Max({q[1] : q \in B} \cup {0}))

\* two leaves touch when their closed squares meet (in units of the finest level L)
Box(q, L) == LET s == Pow2(L - q[1]) IN <<q[2] * s, q[3] * s, (q[2] + 1) * s, (q[3] + 1) * s>>
Touch(p, q, L) == LET a == Box(p, L) b == Box(q, L) IN a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]
=============================================================================
