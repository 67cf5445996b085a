-------------------------------- MODULE Tree ---------------------------------
(***************************************************************************)
(* The path-indexed quadtree: a node is the sequence of child positions    *)
(* (0 lower-left, 1 lower-right, 2 upper-left, 3 upper-right) from the     *)
(* root <<>>.  A tree is given by the set B of its branches (nodes that    *)
(* have children); the leaves are distributed over processes 0..P-1.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Kids(p) == {Append(p, k) : k \in 0..3}
NodesOf(B) == {<<>>} \cup UNION {Kids(p) : p \in B}
LeavesOf(B) == NodesOf(B) \ B
IsTree(B) == \A p \in B : p # <<>> => Front(p) \in B
Below(p, q) == IsPrefix(p, q)                         \* q is p or one of its descendants
Ancestors(p) == {SubSeq(p, 1, k) : k \in 0..(Len(p) - 1)}
ClosureOf(leaves) == leaves \cup UNION {Ancestors(p) : p \in leaves}

\* Squares: <<x, y, side>> in units in which the root has side W
RECURSIVE Square(_, _)
Square(p, W) ==
  IF p = <<>> THEN <<0, 0, W>>
  ELSE LET s == Square(Front(p), W)
           h == s[3] \div 2
           k == Last(p)
       IN <<s[1] + (k % 2) * h, s[2] + (k \div 2) * h, h>>

\* the leaves below p from left to right (Morton order), and all nodes in both traversal orders; N is the node set
RECURSIVE PreOrder(_, _, _)
PreOrder(p, N, Prune) ==
  IF p \notin N THEN <<>>
  ELSE IF p \in Prune THEN <<p>>
  ELSE <<p>> \o PreOrder(Append(p, 0), N, Prune) \o PreOrder(Append(p, 1), N, Prune)
             \o PreOrder(Append(p, 2), N, Prune) \o PreOrder(Append(p, 3), N, Prune)
RECURSIVE PostOrder(_, _)
PostOrder(p, N) ==
  IF p \notin N THEN <<>>
  ELSE PostOrder(Append(p, 0), N) \o PostOrder(Append(p, 1), N) \o PostOrder(Append(p, 2), N) \o PostOrder(Append(p, 3), N) \o <<p>>
LeafOrder(B) == SelectSeq(PreOrder(<<>>, NodesOf(B), {}), LAMBDA p : p \notin B)

\* own: process -> sequence of its leaves.  Every leaf on one process, whole order cut into consecutive pieces
RECURSIVE Join(_, _)
Join(own, P) == IF P = 0 THEN <<>> ELSE Join(own, P - 1) \o own[P - 1]
Distributes(own, P, B) == Join(own, P) = LeafOrder(B)
HeldBy(own, r) == ClosureOf(Range(own[r]))              \* the nodes process r holds
HoldersOf(own, P, p) == {r \in 0..(P - 1) : \E i \in 1..Len(own[r]) : Below(p, own[r][i])}
=============================================================================
