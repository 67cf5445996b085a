------------------------------- MODULE Special -------------------------------
(***************************************************************************)
(* Structured matrices, as sequences of rows, in units of 1/32; their      *)
(* defining actions are checked for every size in bounds, and each matrix  *)
(* is handed to the real code for comparison.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, TLCExt, Json
CONSTANTS MaxN, Further      \* every size up to MaxN, and some larger ones
VARIABLES n
Identity(k) == [i \in 1..k |-> [j \in 1..k |-> IF i = j THEN 32 ELSE 0]]
Diagonal(d) == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN 32 * d[i] ELSE 0]]
FineToCoarse(m) == [i \in 1..m |-> [j \in 1..(2 * m) |-> IF j \in {2 * i - 1, 2 * i} THEN 16 ELSE 0]]
\* fine point i of 2m lies at a quarter cell from the centre of coarse cell (i + 1) \div 2
CoarseToFine(m) ==
  [i \in 1..(2 * m) |-> [j \in 1..m |->
     IF i = 1 THEN (CASE j = 1 -> 45 [] j = 2 -> -18 [] j = 3 -> 5 [] OTHER -> 0)
     ELSE IF i = 2 * m THEN (CASE j = m -> 45 [] j = m - 1 -> -18 [] j = m - 2 -> 5 [] OTHER -> 0)
     ELSE LET c == (i + 1) \div 2  o == IF i % 2 = 0 THEN c + 1 ELSE c - 1 IN IF j = c THEN 24 ELSE IF j = o THEN 8 ELSE 0]]
Sum(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
Apply(M, v) == [i \in 1..Len(M) |-> Sum([j \in 1..Len(v) |-> M[i][j] * v[j]])]
Prod(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> Sum([k \in 1..Len(B) |-> A[i][k] * B[k][j]])]]
\* coarse centre j at 4j - 2, fine centre i at 2i - 1 (quarters of a coarse cell)
C(j) == 4 * j - 2
F(i) == 2 * i - 1
Init == n = 1
Sizes == 1..MaxN \cup Further
Next == \E m \in Sizes : m > n /\ (\A k \in Sizes : k <= n \/ k >= m) /\ n' = m
Spec == Init /\ [][Next]_n
Laws ==
  /\ Apply(Identity(n), [j \in 1..n |-> j * j - 3]) = [j \in 1..n |-> 32 * (j * j - 3)]
  /\ Apply(Diagonal([j \in 1..n |-> j - 2]), [j \in 1..n |-> j + 1]) = [j \in 1..n |-> 32 * (j - 2) * (j + 1)]
  /\ Apply(FineToCoarse(n), [i \in 1..(2 * n) |-> i * i]) = [j \in 1..n |-> 16 * ((2 * j - 1) ^ 2 + (2 * j) ^ 2)]
  /\ n >= 3 => LET M == TLCEval(CoarseToFine(n)) IN
       /\ \A p \in -1..1, q \in -2..2 : Apply(M, [j \in 1..n |-> p + q * C(j)]) = [i \in 1..(2 * n) |-> 32 * (p + q * F(i))]
       /\ \A i \in 1..(2 * n), j \in 1..n : M[i][j] = M[2 * n + 1 - i][n + 1 - j]
       /\ LET v == Apply(M, [j \in 1..n |-> C(j) * C(j)]) IN \A i \in {1, 2 * n} : v[i] = 32 * F(i) * F(i)     \* quadratics at the ends
Emit == PrintT("@" \o ToJson(<<n, Identity(n), FineToCoarse(n), IF n >= 3 THEN CoarseToFine(n) ELSE <<>>>>))
=============================================================================
