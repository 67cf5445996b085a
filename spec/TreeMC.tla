------------------------------- MODULE TreeMC --------------------------------
(* All small trees, built leaf by leaf, with all distributions of their       *)
(* leaves: the structural facts the tree properties rely on.                  *)
EXTENDS Tree, TLC, Json
CONSTANTS MaxLevel, MaxBranches, Procs
VARIABLES B

Init == B = {}
Refine(p) == /\ p \in LeavesOf(B) /\ Len(p) < MaxLevel /\ Cardinality(B) < MaxBranches
             /\ B' = B \cup {p}
Next == \E p \in LeavesOf(B) : Refine(p)
Spec == Init /\ [][Next]_B

W == 2 ^ MaxLevel
\* every way of cutting an order of n leaves into Procs consecutive non-empty pieces
Cuts(n) == {c \in [0..Procs -> 0..n] : c[0] = 0 /\ c[Procs] = n /\ \A i \in 0..(Procs - 1) : c[i] < c[i + 1]}

Shape == LET N == TLCEval(NodesOf(B))
             Leaves == TLCEval(LeavesOf(B))
         IN
         /\ IsTree(B)
         /\ Cardinality(N) = 4 * Cardinality(B) + 1 /\ Cardinality(Leaves) = 3 * Cardinality(B) + 1
         /\ N = ClosureOf(Leaves)
\* leaf squares tile the root square
Tiling == LET Leaves == TLCEval(LeavesOf(B))
              sq == TLCEval([p \in Leaves |-> Square(p, W)])
          IN /\ MapThenSumSet(LAMBDA p : sq[p][3] * sq[p][3], Leaves) = W * W
             /\ \A p, q \in Leaves : p # q =>
                  LET a == sq[p] b == sq[q] IN
                    a[1] + a[3] <= b[1] \/ b[1] + b[3] <= a[1] \/ a[2] + a[3] <= b[2] \/ b[2] + b[3] <= a[2]
Orders == LET N == TLCEval(NodesOf(B))
              Leaves == TLCEval(LeavesOf(B))
              pre == TLCEval(PreOrder(<<>>, N, {}))
              post == TLCEval(PostOrder(<<>>, N))
              At(s, p) == CHOOSE i \in 1..Len(s) : s[i] = p
          IN /\ Len(pre) = Cardinality(N) /\ Range(pre) = N /\ Len(post) = Cardinality(N) /\ Range(post) = N
             /\ \A p \in N, q \in N : p # q /\ Below(p, q) => At(pre, p) < At(pre, q) /\ At(post, p) > At(post, q)
             /\ \A p \in N : PreOrder(<<>>, N, {p}) = SelectSeq(pre, LAMBDA q : q = p \/ ~Below(p, q))
             /\ SelectSeq(pre, LAMBDA p : p \in Leaves) = SelectSeq(post, LAMBDA p : p \in Leaves)
\* the holders of a node are a contiguous range, the root is held by all, a leaf by one; a holder holds all ancestors
Holding ==
  LET N == TLCEval(NodesOf(B))
      Leaves == TLCEval(LeavesOf(B))
      order == TLCEval(LeafOrder(B))
  IN \A c \in Cuts(Len(order)) :
       LET own == TLCEval([r \in 0..(Procs - 1) |-> SubSeq(order, c[r] + 1, c[r + 1])])
           held == TLCEval([r \in 0..(Procs - 1) |-> HeldBy(own, r)])
           H == TLCEval([p \in N |-> HoldersOf(own, Procs, p)])
       IN
         /\ Join(own, Procs) = order
         /\ H[<<>>] = 0..(Procs - 1)
         /\ \A p \in N :
              /\ H[p] = Min(H[p])..Max(H[p])
              /\ p \in Leaves => Cardinality(H[p]) = 1
              /\ \A r \in 0..(Procs - 1) : r \in H[p] <=> p \in held[r]
              /\ p # <<>> => H[p] \subseteq H[Front(p)]
              /\ p \in B => H[p] = UNION {H[q] : q \in Kids(p)}
\* every tree explored is also handed to the real code
Emit == PrintT("@" \o ToJson(SetToSeq(B)))
=============================================================================
