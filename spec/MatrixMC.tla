------------------------------ MODULE MatrixMC -------------------------------
(* Exhaustive exploration of MatrixADT over all small shapes.                 *)
EXTENDS MatrixADT, TLC, Json
CONSTANTS MaxDim, Vals, Emit, Group
VARIABLES reg

R == 0..1
Mats == UNION {[r : {m}, c : {n}, d : [1..(m * n) -> Vals]] : m \in 1..MaxDim, n \in 1..MaxDim}
Lists(n, S) == UNION {[1..k -> S] : k \in 1..n}
C(op, a, L) == [op |-> op, a |-> a, L |-> L]
Idx == 0..MaxDim
\* element operations move entries without looking at them, so all-distinct entries stand for every content
Labelled(k) == UNION {[r : {m}, c : {n}, d : {[i \in 1..(m * n) |-> i + 10 * k]}] : m \in 1..MaxDim, n \in 1..MaxDim}
ElementCalls ==
     {C("data", <<0, m.r, m.c>>, <<m.d>>) : m \in {x \in Labelled(3) : x.r # x.c}}
  \cup {C(op, <<r, s>>, <<>>) : op \in {"copy", "assign", "transpose"}, r \in R, s \in R}
  \cup {C("shape", <<r>>, <<>>) : r \in R}
  \cup {C("get", <<0, i, j>>, <<>>) : i \in Idx, j \in Idx}
  \cup {C("put", <<0, i, j, 7>>, <<>>) : i \in Idx, j \in Idx}
  \cup {C("range", <<1, 0, i, ii, j, jj>>, <<>>) : i \in Idx, ii \in Idx, j \in Idx, jj \in Idx}
  \cup {C(op, <<0, i>>, <<>>) : op \in {"getrow", "getcol"}, i \in Idx}
  \cup {C(op, <<0, i>>, <<s>>) : op \in {"setrow", "setcol"}, i \in Idx, s \in {<<5>>, <<5, 6>>, <<5, 6, 8>>}}
  \cup {C("indexset", <<1, 0>>, <<I, J>>) : I \in Lists(2, Idx), J \in Lists(2, Idx)}
  \cup {C("permute", <<1, 0>>, <<I, J, S, T>>) : I \in {<<0, 1>>, <<1, 0>>}, J \in {<<0, 1>>, <<1, 0>>},
                                                  S \in [1..2 -> 0..2], T \in [1..2 -> 0..2]}
  \cup {C("getblock", <<1, 0, i, j, m, n>>, <<>>) : i \in Idx, j \in Idx, m \in 1..2, n \in 1..2}
  \cup {C("setblock", <<0, i, j, 1>>, <<>>) : i \in Idx, j \in Idx}
  \cup {C("blockdiag", <<0>>, <<ks>>) : ks \in {<<0, 1>>, <<1>>, <<0, 1, 0>>}}
ArithCalls ==
     {C(op, <<r, s>>, <<>>) : op \in {"neg", "addeq", "subeq", "infnorm"}, r \in R, s \in R}
  \cup {C(op, <<r, 3>>, <<>>) : op \in {"addeqc", "subeqc", "muleqc"}, r \in R}
  \cup {C(op, <<r, s, t>>, <<>>) : op \in {"add", "sub", "matmul"}, r \in R, s \in R, t \in R}
  \cup {C("smul", <<r, s, 2>>, <<>>) : r \in R, s \in R}
  \cup {C("matvec", <<r>>, <<x>>) : r \in R, x \in {<<3>>, <<3, 5>>, <<3, 5, 7>>}}
Calls == IF Group = "element" THEN ElementCalls ELSE ArithCalls

\* calls whose precondition the library leaves to the caller are not made
Legal(c) == /\ c.op = "range" => c.a[3] <= c.a[4] /\ c.a[5] <= c.a[6]

Small(r) == \A k \in 1..Len(r) : r[k] \in Mats

Init == IF Group = "element" THEN reg \in {<<x, y>> : x \in Labelled(1), y \in Labelled(2)} ELSE reg \in [1..2 -> Mats]
Step(c) == LET e == Eval(c.op, c.a, c.L, reg, <<>>) IN
  /\ Legal(c)
  /\ IF Emit THEN PrintT("@" \o ToJson(<<reg, c, e>>)) ELSE TRUE
  /\ reg' = IF Group # "element" /\ Small(e.reg) THEN e.reg ELSE reg
  /\ Assert(~e.ok => e.reg = reg, "a rejected call changed an operand")
  /\ Assert(\A k \in 1..2 : (k - 1) \notin Targets(c.op, c.a) => e.reg[k] = reg[k], "a call changed a matrix other than its target")
Next == \E c \in Calls : Step(c)

ER(op, a, L) == Eval(op, a, L, reg, <<>>)
A == reg[1]
B == reg[2]
Laws ==
  /\ Transpose(Transpose(A)) = A
  /\ A.c = B.r => Transpose(Product(A, B)) = Product(Transpose(B), Transpose(A))
  /\ A.c = B.r => \A j \in 0..(B.c - 1) : ER("getcol", <<0, j>>, <<>>).ok = ColIn(A, j)
  /\ BlockDiagonal(<<Transpose(A), Transpose(B)>>) = Transpose(BlockDiagonal(<<A, B>>))
  /\ LET D == BlockDiagonal(<<A, B>>) IN
       /\ Eval("getblock", <<0, 0, 0, 0, A.r, A.c>>, <<>>, <<D, B>>, <<>>).reg[1] = A
       /\ Eval("getblock", <<0, 0, A.r, A.c, B.r, B.c>>, <<>>, <<D, B>>, <<>>).reg[1] = B
       /\ Eval("permute", <<0, 0>>, <<<<1, 0>>, <<1, 0>>, <<A.r, B.r>>, <<A.c, B.c>>>>, <<D, B>>, <<>>).reg[1] = BlockDiagonal(<<B, A>>)
  /\ Same(A, B) => /\ ER("add", <<0, 0, 1>>, <<>>).reg[1] = ER("add", <<0, 1, 0>>, <<>>).reg[1]
                   /\ (ER("infnorm", <<0, 1>>, <<>>).out[1] = 0 <=> A = B)
Spec == Init /\ [][Next]_reg
=============================================================================
