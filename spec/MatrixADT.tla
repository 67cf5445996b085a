------------------------------ MODULE MatrixADT ------------------------------
(***************************************************************************)
(* EllipticForest::Matrix as an abstract data type: four registers holding *)
(* integer matrices [r, c, d] (r rows, c columns, entries d row by row),   *)
(* and the outcome of every call. Rows and columns are 0-based in calls.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Flatten(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
Offset(S, k) == SumSeq([i \in 1..k |-> S[i]])

Mk(nr, nc, F(_,_)) == [r |-> nr, c |-> nc, d |-> [k \in 1..(nr * nc) |-> F((k - 1) \div nc, (k - 1) % nc)]]
At(M, i, j) == M.d[i * M.c + j + 1]
Empty == [r |-> 0, c |-> 0, d |-> <<>>]
Transpose(M) == Mk(M.c, M.r, LAMBDA i, j : At(M, j, i))
Product(A, B) == Mk(A.r, B.c, LAMBDA i, j : SumSeq([k \in 1..A.c |-> At(A, i, k - 1) * At(B, k - 1, j)]))
MatVec(A, x) == [i \in 1..A.r |-> SumSeq([k \in 1..A.c |-> At(A, i - 1, k - 1) * x[k]])]
Combine(A, B, F(_,_)) == [A EXCEPT !.d = [k \in 1..Len(A.d) |-> F(A.d[k], B.d[k])]]
Map(A, F(_)) == [A EXCEPT !.d = MapSeq(A.d, F)]
Same(A, B) == A.r = B.r /\ A.c = B.c
RowIn(M, i) == 0 <= i /\ i < M.r
ColIn(M, j) == 0 <= j /\ j < M.c
Pick(M, I, J) == Mk(Len(I), Len(J), LAMBDA i, j : At(M, I[i + 1], J[j + 1]))
Indices(I, S) == Flatten(MapSeq(I, LAMBDA k : [n \in 1..S[k + 1] |-> Offset(S, k) + n - 1]))
BlockDiagonal(Ms) ==
  LET R == MapSeq(Ms, LAMBDA m : m.r)
      C == MapSeq(Ms, LAMBDA m : m.c)
      Of(S, i) == CHOOSE k \in 0..(Len(S) - 1) : Offset(S, k) <= i /\ i < Offset(S, k + 1)
  IN Mk(SumSeq(R), SumSeq(C), LAMBDA i, j :
        LET k == Of(R, i) IN
          IF Of(C, j) = k THEN At(Ms[k + 1], i - Offset(R, k), j - Offset(C, k)) ELSE 0)

Yes(reg, out) == [ok |-> TRUE, reg |-> reg, out |-> out]
No(reg) == [ok |-> FALSE, reg |-> reg, out |-> <<>>]
Into(reg, r, v) == Yes([reg EXCEPT ![r + 1] = v], <<>>)
If(c, reg, then) == IF c THEN then ELSE No(reg)

\* the scripts' systems have small solutions; anything else is not one (and would overflow TLC's integers)
Modest(x) == \A i \in 1..Len(x) : Abs(x[i]) <= 1000000
\* hint: what the implementation returned, used only by the linear solves, whose outcome is specified by a relation
Eval(op, a, L, reg, hint) ==
  LET M(k) == reg[a[k] + 1]
  IN
  CASE op = "zeros"   -> Into(reg, a[1], Mk(a[2], a[3], LAMBDA i, j : 0))
    [] op = "fill"    -> Into(reg, a[1], Mk(a[2], a[3], LAMBDA i, j : a[4]))
    [] op = "data"    -> Into(reg, a[1], [r |-> a[2], c |-> a[3], d |-> L[1]])
    [] op \in {"copy", "assign"} -> Into(reg, a[1], M(2))
    [] op = "shape"   -> Yes(reg, <<M(1).r, M(1).c>>)
    [] op = "get"     -> If(RowIn(M(1), a[2]) /\ ColIn(M(1), a[3]), reg, Yes(reg, <<At(M(1), a[2], a[3])>>))
    [] op = "put"     -> If(RowIn(M(1), a[2]) /\ ColIn(M(1), a[3]), reg,
                            Into(reg, a[1], Mk(M(1).r, M(1).c, LAMBDA i, j : IF i = a[2] /\ j = a[3] THEN a[4] ELSE At(M(1), i, j))))
    [] op = "range"   -> If(RowIn(M(2), a[3]) /\ RowIn(M(2), a[4]) /\ ColIn(M(2), a[5]) /\ ColIn(M(2), a[6]), reg,
                            Into(reg, a[1], Mk(a[4] - a[3] + 1, a[6] - a[5] + 1, LAMBDA i, j : At(M(2), a[3] + i, a[5] + j))))
    [] op = "getrow"  -> If(RowIn(M(1), a[2]), reg, Yes(reg, [j \in 1..M(1).c |-> At(M(1), a[2], j - 1)]))
    [] op = "getcol"  -> If(ColIn(M(1), a[2]), reg, Yes(reg, [i \in 1..M(1).r |-> At(M(1), i - 1, a[2])]))
    [] op = "setrow"  -> If(RowIn(M(1), a[2]) /\ Len(L[1]) = M(1).c, reg,
                            Into(reg, a[1], Mk(M(1).r, M(1).c, LAMBDA i, j : IF i = a[2] THEN L[1][j + 1] ELSE At(M(1), i, j))))
    [] op = "setcol"  -> If(ColIn(M(1), a[2]) /\ Len(L[1]) = M(1).r, reg,
                            Into(reg, a[1], Mk(M(1).r, M(1).c, LAMBDA i, j : IF j = a[2] THEN L[1][i + 1] ELSE At(M(1), i, j))))
    [] op = "indexset" -> If(/\ Len(L[1]) <= M(2).r /\ Len(L[2]) <= M(2).c
                             /\ \A i \in 1..Len(L[1]) : RowIn(M(2), L[1][i])
                             /\ \A j \in 1..Len(L[2]) : ColIn(M(2), L[2][j]), reg,
                             Into(reg, a[1], Pick(M(2), L[1], L[2])))
    [] op = "permute" -> If(/\ SumSeq(L[3]) = M(2).r /\ SumSeq(L[4]) = M(2).c
                            /\ \A i \in 1..Len(L[1]) : 0 <= L[1][i] /\ L[1][i] < Len(L[3])
                            /\ \A j \in 1..Len(L[2]) : 0 <= L[2][j] /\ L[2][j] < Len(L[4]), reg,
                            Into(reg, a[1], Pick(M(2), Indices(L[1], L[3]), Indices(L[2], L[4]))))
    [] op = "getblock" -> If(a[3] + a[5] <= M(2).r /\ a[4] + a[6] <= M(2).c, reg,
                             Into(reg, a[1], Mk(a[5], a[6], LAMBDA i, j : At(M(2), a[3] + i, a[4] + j))))
    [] op = "setblock" -> If(a[2] + M(4).r <= M(1).r /\ a[3] + M(4).c <= M(1).c, reg,
                             Into(reg, a[1], Mk(M(1).r, M(1).c, LAMBDA i, j :
                                IF a[2] <= i /\ i < a[2] + M(4).r /\ a[3] <= j /\ j < a[3] + M(4).c
                                THEN At(M(4), i - a[2], j - a[3]) ELSE At(M(1), i, j))))
    [] op = "transpose" -> Into(reg, a[1], Transpose(M(2)))
    [] op = "neg"     -> Into(reg, a[1], Map(M(2), LAMBDA x : -x))
    [] op = "addeq"   -> If(Same(M(1), M(2)), reg, Into(reg, a[1], Combine(M(1), M(2), LAMBDA x, y : x + y)))
    [] op = "subeq"   -> If(Same(M(1), M(2)), reg, Into(reg, a[1], Combine(M(1), M(2), LAMBDA x, y : x - y)))
    [] op = "add"     -> If(Same(M(2), M(3)), reg, Into(reg, a[1], Combine(M(2), M(3), LAMBDA x, y : x + y)))
    [] op = "sub"     -> If(Same(M(2), M(3)), reg, Into(reg, a[1], Combine(M(2), M(3), LAMBDA x, y : x - y)))
    [] op = "addeqc"  -> Into(reg, a[1], Map(M(1), LAMBDA x : x + a[2]))
    [] op = "subeqc"  -> Into(reg, a[1], Map(M(1), LAMBDA x : x - a[2]))
    [] op = "muleqc"  -> Into(reg, a[1], Map(M(1), LAMBDA x : x * a[2]))
    [] op = "smul"    -> Into(reg, a[1], Map(M(2), LAMBDA x : x * a[3]))
    [] op = "matvec"  -> If(M(1).c = Len(L[1]), reg, Yes(reg, MatVec(M(1), L[1])))
    [] op = "matmul"  -> If(M(2).c = M(3).r, reg, Into(reg, a[1], Product(M(2), M(3))))
    [] op = "infnorm" -> If(Same(M(1), M(2)), reg,
                            Yes(reg, <<FoldLeft(LAMBDA m, x : IF x > m THEN x ELSE m, 0, Combine(M(1), M(2), LAMBDA x, y : Abs(x - y)).d)>>))
    [] op = "blockdiag" -> Into(reg, a[1], BlockDiagonal(MapSeq(L[1], LAMBDA k : reg[k + 1])))
    \* nonsingular systems only: the result is the X with A X = B
    [] op = "solvev"  -> If(M(1).r = M(1).c /\ M(1).r = Len(L[1]), reg,
                            IF Len(hint) = M(1).r /\ Modest(hint) /\ MatVec(M(1), hint) = L[1] THEN Yes(reg, hint) ELSE Yes(reg, <<-999999999>>))
    [] op = "solvem"  -> If(M(2).r = M(2).c /\ M(2).r = M(3).r, reg,
                            LET X == [r |-> M(2).r, c |-> M(3).c, d |-> hint] IN
                            IF Len(hint) = X.r * X.c /\ Modest(hint) /\ Product(M(2), X) = M(3) THEN Yes([reg EXCEPT ![a[1] + 1] = X], hint)
                            ELSE Yes(reg, <<-999999999>>))

Targets(op, a) == IF op \in {"shape", "get", "getrow", "getcol", "matvec", "infnorm", "solvev"} THEN {} ELSE {a[1]}
=============================================================================
