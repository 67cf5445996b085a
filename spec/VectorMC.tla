------------------------------ MODULE VectorMC -------------------------------
(* Exhaustive exploration of VectorADT over small vectors. The laws below are *)
(* checked in every reachable state; every explored transition is printed as  *)
(* <<pre-state, call, outcome>> and executed on the real class.               *)
EXTENDS VectorADT, TLC, Json
CONSTANTS MaxLen, Vals, Emit
VARIABLES reg

R == 0..1
Seqs == UNION {[1..n -> Vals] : n \in 0..MaxLen}
C(op, a, L) == [op |-> op, a |-> a, L |-> L]
Idx == 0..MaxLen
Calls ==
     {C("zeros", <<r, n>>, <<>>) : r \in R, n \in 0..1}
  \cup {C("list", <<r>>, <<s>>) : r \in R, s \in Seqs}
  \cup {C(op, <<r, s>>, <<>>) : op \in {"copy", "assign", "append", "addeq", "subeq", "neg", "dot", "infnorm", "l2sq"}, r \in R, s \in R}
  \cup {C(op, <<r>>, <<>>) : op \in {"size"}, r \in R}
  \cup {C("get", <<r, i>>, <<>>) : r \in R, i \in Idx}
  \cup {C("put", <<r, i, v>>, <<>>) : r \in R, i \in Idx, v \in Vals}
  \cup {C("range", <<r, s, i, j>>, <<>>) : r \in R, s \in R, i \in Idx, j \in Idx}
  \cup {C("segment", <<r, s, i, n>>, <<>>) : r \in R, s \in R, i \in Idx, n \in Idx}
  \cup {C("setseg", <<r, i, s>>, <<>>) : r \in R, s \in R, i \in Idx}
  \cup {C("indexset", <<r, s>>, <<I>>) : r \in R, s \in R, I \in UNION {[1..n -> Idx] : n \in 0..2}}
  \cup {C("permute", <<r, s>>, <<I, S>>) : r \in R, s \in R, I \in {<<0,1>>, <<1,0>>, <<0,2>>}, S \in [1..2 -> 0..2]}
  \cup {C(op, <<r, s, t>>, <<>>) : op \in {"add", "sub", "hmul"}, r \in R, s \in R, t \in R}
  \cup {C(op, <<r, s, 2>>, <<>>) : op \in {"addc", "subc", "smul"}, r \in R, s \in R}
  \cup {C(op, <<r, 2>>, <<>>) : op \in {"addeqc", "subeqc", "muleqc"}, r \in R}
  \cup {C("concat", <<r>>, <<ks>>) : r \in R, ks \in {<<0,1>>, <<1,0>>, <<1>>, <<0,0>>}}

\* calls whose precondition the library leaves to the caller are not made
Legal(c) == /\ c.op = "range" => c.a[3] <= c.a[4] \/ ~InRange(reg[c.a[2]+1], c.a[3]) \/ ~InRange(reg[c.a[2]+1], c.a[4])

Small(r) == \A k \in 1..Len(r) : Len(r[k]) <= MaxLen /\ \A i \in 1..Len(r[k]) : r[k][i] \in Vals

Init == reg \in [1..2 -> Seqs]
Step(c) == LET e == Eval(c.op, c.a, c.L, reg) IN
  /\ Legal(c)
  /\ IF Emit THEN PrintT("@" \o ToJson(<<reg, c, e>>)) ELSE TRUE
  /\ reg' = IF Small(e.reg) THEN e.reg ELSE reg
  /\ Assert(~e.ok => e.reg = reg, "a rejected call changed an operand")
  /\ Assert(\A k \in 1..2 : (k - 1) \notin Targets(c.op, c.a) => e.reg[k] = reg[k], "a call changed a vector other than its target")
Next == \E c \in Calls : Step(c)

\* ---- laws of the abstract type (sanity of the specification itself)
ER(op, a, L) == Eval(op, a, L, reg)
u == reg[1]
v == reg[2]
Laws ==
  /\ ER("append", <<0, 1>>, <<>>).reg[1] = ER("concat", <<0>>, <<<<0, 1>>>>).reg[1]
  /\ \A i \in 0..MaxLen, n \in 0..MaxLen : i + n <= Len(u) =>
       LET m == ER("segment", <<1, 0, i, n>>, <<>>).reg[2] IN
         /\ Len(m) = n
         /\ Eval("setseg", <<0, i, 1>>, <<>>, <<u, m>>).reg[1] = u          \* writing back what was read is the identity
         /\ n > 0 => ER("range", <<1, 0, i, i + n - 1>>, <<>>).reg[2] = m
         /\ ER("indexset", <<1, 0>>, <<[k \in 1..n |-> i + k - 1]>>).reg[2] = m
  /\ \A s0 \in 0..Len(u) : LET S == <<s0, Len(u) - s0>>
                               w == ER("permute", <<0, 0>>, <<<<1, 0>>, S>>).reg[1] IN
        Eval("permute", <<0, 0>>, <<<<1, 0>>, <<S[2], S[1]>>>>, <<w, v>>).reg[1] = u
  /\ Len(u) = Len(v) =>
       /\ ER("add", <<0, 0, 1>>, <<>>).reg = ER("add", <<0, 1, 0>>, <<>>).reg
       /\ Eval("subeq", <<0, 1>>, <<>>, ER("add", <<0, 0, 1>>, <<>>).reg).reg[1] = u
       /\ ER("dot", <<0, 1>>, <<>>).out = ER("dot", <<1, 0>>, <<>>).out
       /\ ER("l2sq", <<0, 1>>, <<>>).out[1] >= ER("infnorm", <<0, 1>>, <<>>).out[1]
       /\ ER("l2sq", <<0, 1>>, <<>>).out[1] = 0 <=> u = v
Spec == Init /\ [][Next]_reg
=============================================================================
