------------------------------ MODULE VectorADT ------------------------------
(***************************************************************************)
(* EllipticForest::Vector as an abstract data type: four registers holding *)
(* finite integer sequences, and one operator, Eval, giving for each call  *)
(* (op, integer arguments a, list arguments L) its outcome: accepted or    *)
(* rejected, the registers afterwards and the value returned.              *)
(* Element positions are 0-based in the calls, 1-based in the sequences.   *)
(* Used by VectorMC (exhaustive, laws, one test per transition) and by     *)
(* VectorTrace (lockstep validation of executions of the real code).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
ZipSeq(s, t, F(_,_)) == [i \in 1..Len(s) |-> F(s[i], t[i])]
Const(n, v) == [i \in 1..n |-> v]
Slice(s, from, n) == [i \in 1..n |-> s[from + i]]        \* n entries from 0-based position `from`
Offset(S, k) == SumSeq([i \in 1..k |-> S[i]])
BlockOf(s, S, k) == Slice(s, Offset(S, k), S[k + 1])
Flatten(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)

InRange(s, i) == 0 <= i /\ i < Len(s)

Yes(reg, out) == [ok |-> TRUE, reg |-> reg, out |-> out]
No(reg) == [ok |-> FALSE, reg |-> reg, out |-> <<>>]
\* result v of an operation returning a new vector is stored in register r
Into(reg, r, v) == Yes([reg EXCEPT ![r + 1] = v], <<>>)
If(c, reg, then) == IF c THEN then ELSE No(reg)

Eval(op, a, L, reg) ==
  LET V(k) == reg[a[k] + 1]                       \* the vector in the register named by argument k
  IN
  CASE op = "zeros"   -> Into(reg, a[1], Const(a[2], 0))
    [] op = "fill"    -> Into(reg, a[1], Const(a[2], a[3]))
    [] op = "list"    -> Into(reg, a[1], L[1])
    [] op = "copy"    -> Into(reg, a[1], V(2))
    [] op = "assign"  -> Into(reg, a[1], V(2))
    [] op = "size"    -> Yes(reg, <<Len(V(1))>>)
    [] op = "get"     -> If(InRange(V(1), a[2]), reg, Yes(reg, <<V(1)[a[2] + 1]>>))
    [] op = "put"     -> If(InRange(V(1), a[2]), reg, Yes([reg EXCEPT ![a[1] + 1][a[2] + 1] = a[3]], <<>>))
    [] op = "range"   -> If(InRange(V(2), a[3]) /\ InRange(V(2), a[4]), reg, Into(reg, a[1], Slice(V(2), a[3], a[4] - a[3] + 1)))
    [] op = "segment" -> If(a[3] + a[4] <= Len(V(2)), reg, Into(reg, a[1], Slice(V(2), a[3], a[4])))
    [] op = "setseg"  -> If(a[2] + Len(V(3)) <= Len(V(1)), reg,
                            Into(reg, a[1], [i \in 1..Len(V(1)) |-> IF i > a[2] /\ i <= a[2] + Len(V(3)) THEN V(3)[i - a[2]] ELSE V(1)[i]]))
    [] op = "append"  -> Into(reg, a[1], V(1) \o V(2))
    [] op = "indexset" -> If(Len(L[1]) <= Len(V(2)) /\ \A i \in 1..Len(L[1]) : InRange(V(2), L[1][i]), reg,
                             Into(reg, a[1], MapSeq(L[1], LAMBDA i : V(2)[i + 1])))
    [] op = "permute" -> If(SumSeq(L[2]) = Len(V(2)) /\ \A i \in 1..Len(L[1]) : InRange(L[2], L[1][i]), reg,
                            Into(reg, a[1], Flatten(MapSeq(L[1], LAMBDA k : BlockOf(V(2), L[2], k)))))
    [] op = "neg"     -> Into(reg, a[1], MapSeq(V(2), LAMBDA x : -x))
    [] op = "add"     -> If(Len(V(2)) = Len(V(3)), reg, Into(reg, a[1], ZipSeq(V(2), V(3), LAMBDA x, y : x + y)))
    [] op = "sub"     -> If(Len(V(2)) = Len(V(3)), reg, Into(reg, a[1], ZipSeq(V(2), V(3), LAMBDA x, y : x - y)))
    [] op = "addeq"   -> If(Len(V(1)) = Len(V(2)), reg, Into(reg, a[1], ZipSeq(V(1), V(2), LAMBDA x, y : x + y)))
    [] op = "subeq"   -> If(Len(V(1)) = Len(V(2)), reg, Into(reg, a[1], ZipSeq(V(1), V(2), LAMBDA x, y : x - y)))
    [] op = "addc"    -> Into(reg, a[1], MapSeq(V(2), LAMBDA x : x + a[3]))
    [] op = "subc"    -> Into(reg, a[1], MapSeq(V(2), LAMBDA x : x - a[3]))
    [] op = "addeqc"  -> Into(reg, a[1], MapSeq(V(1), LAMBDA x : x + a[2]))
    [] op = "subeqc"  -> Into(reg, a[1], MapSeq(V(1), LAMBDA x : x - a[2]))
    [] op = "muleqc"  -> Into(reg, a[1], MapSeq(V(1), LAMBDA x : x * a[2]))
    [] op = "smul"    -> Into(reg, a[1], MapSeq(V(2), LAMBDA x : x * a[3]))
    \* divisions are only issued with exactly divisible entries: the quotient is the q with q * d = x
    [] op = "diveqc"  -> Into(reg, a[1], MapSeq(V(1), LAMBDA x : IF x < 0 THEN -((-x) \div a[2]) ELSE x \div a[2]))
    [] op = "hmul"    -> If(Len(V(2)) = Len(V(3)), reg, Into(reg, a[1], ZipSeq(V(2), V(3), LAMBDA x, y : x * y)))
    [] op = "hdiv"    -> If(Len(V(2)) = Len(V(3)), reg, Into(reg, a[1], ZipSeq(V(2), V(3), LAMBDA x, y :
                            LET q == Abs(x) \div Abs(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q)))
    [] op = "dot"     -> If(Len(V(1)) = Len(V(2)), reg, Yes(reg, <<SumSeq(ZipSeq(V(1), V(2), LAMBDA x, y : x * y))>>))
    [] op = "infnorm" -> If(Len(V(1)) = Len(V(2)), reg,
                            Yes(reg, <<FoldLeft(LAMBDA m, x : IF x > m THEN x ELSE m, 0, ZipSeq(V(1), V(2), LAMBDA x, y : Abs(x - y)))>>))
    [] op = "l2sq"    -> If(Len(V(1)) = Len(V(2)), reg, Yes(reg, <<SumSeq(ZipSeq(V(1), V(2), LAMBDA x, y : (x - y) * (x - y)))>>))
    [] op = "concat"  -> Into(reg, a[1], Flatten(MapSeq(L[1], LAMBDA k : reg[k + 1])))
    [] op = "vrange"  -> Yes(reg, [i \in 1..(a[2] - a[1] + 1) |-> a[1] + i - 1])

\* the registers an operation may write
Targets(op, a) == IF op \in {"size", "get", "dot", "infnorm", "l2sq", "vrange"} THEN {} ELSE {a[1]}
=============================================================================
