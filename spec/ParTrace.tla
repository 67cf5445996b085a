------------------------------ MODULE ParTrace -------------------------------
(***************************************************************************)
(* Distributed vectors and matrices against their global contents.         *)
(* Names refer to objects; copies of a name refer to the same object.      *)
(* Vector object: [comm, share, val]; matrix object: [comm, rs, cs, val]   *)
(* (val: sequence of rows), where shares are the sizes on the members.     *)
(***************************************************************************)
EXTENDS Share, TLC, TLCExt, Json
CONSTANT P
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, comm, vname, mname, obj, wrong
vars == <<at, comm, vname, mname, obj, wrong>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Init == at = 0 /\ comm = (0 :> <<0, P - 1>>) /\ vname = <<>> /\ mname = <<>> /\ obj = <<>> /\ wrong = {}
Size(c) == comm[c][2] - comm[c][1] + 1
Zeros(n) == [i \in 1..n |-> 0]
Cut(l, m, n) == [i \in 1..m |-> SubSeq(l, (i - 1) * n + 1, i * n)]           \* a list as m rows of n
Upd(old, mode, x) == IF mode = 1 THEN old + x ELSE x
RECURSIVE SetAll(_, _, _, _, _), SetBlock(_, _, _, _, _, _)
SetAll(v, I, X, mode, k) == IF k > Len(I) THEN v ELSE SetAll([v EXCEPT ![I[k] + 1] = Upd(@, mode, X[k])], I, X, mode, k + 1)
SetBlock(A, I, J, X, mode, k) ==
  IF k > Len(I) * Len(J) THEN A
  ELSE LET i == I[((k - 1) \div Len(J)) + 1] + 1 j == J[((k - 1) % Len(J)) + 1] + 1 IN SetBlock([A EXCEPT ![i][j] = Upd(@, mode, X[k])], I, J, X, mode, k + 1)
Dot(r, x) == FoldLeft(LAMBDA s, k : s + r[k] * x[k], 0, [k \in 1..Len(r) |-> k])
Flat(rows) == FoldLeft(LAMBDA s, r : s \o r, <<>>, rows)
VO(id) == obj[vname[id]]
MO(id) == obj[mname[id]]
Members(c) == comm[c][1]..comm[c][2]
Bad(ok, what) == IF ok THEN {} ELSE {what}
Fresh(e) == at + 1
NewV(e, o) == vname' = Put(vname, e.a[1], at + 1) /\ obj' = Put(obj, at + 1, o) /\ UNCHANGED <<comm, mname>>
NewM(e, o) == mname' = Put(mname, e.a[1], at + 1) /\ obj' = Put(obj, at + 1, o) /\ UNCHANGED <<comm, vname>>
Keep == UNCHANGED <<comm, vname, mname, obj>>
VOK(e, o) ==          \* every member's report
  \A p \in Members(o.comm) : LET r == e.r[p + 1] k == p - comm[o.comm][1] + 1 f == First(o.share, k) IN
     r.lo = f /\ r.hi = f + o.share[k] /\ r.n = Len(o.val) /\ r.val = SubSeq(o.val, f + 1, f + o.share[k])
MOK(e, o) ==
  \A p \in Members(o.comm) : LET r == e.r[p + 1] k == p - comm[o.comm][1] + 1 f == First(o.rs, k) M == Sum(o.rs) N == Sum(o.cs) IN
     r.lo = f /\ r.hi = f + o.rs[k] /\ r.size = <<M, N>> /\ r.says = <<M, N, o.rs[k], o.cs[k]>> /\ r.val = Flat(SubSeq(o.val, f + 1, f + o.rs[k]))
Next ==
  LET e == Log[at + 1] a == e.a L == e.L
      stopped == \E p \in 1..P : e.r[p].threw = 1 \/ e.r[p].err # 0
      spoiled == \E p \in 1..P : "own" \in DOMAIN e.r[p] /\ e.r[p].own # 1
      base == Bad(~stopped, "stopped") \cup Bad(~spoiled, "the serial object changed")
  IN
  /\ at < Len(Log) /\ wrong = {} /\ at' = at + 1
  /\ IF base # {} THEN wrong' = base /\ Keep ELSE
     CASE e.op = "comm" -> comm' = Put(comm, a[1], <<comm[a[2]][1] + a[3], comm[a[2]][1] + a[4]>>) /\ UNCHANGED <<vname, mname, obj, wrong>>
       [] e.op = "vnew" -> NewV(e, [comm |-> a[2], share |-> IF L[1] = <<>> THEN Split(a[4], Size(a[2])) ELSE L[1], val |-> Zeros(a[4])]) /\ UNCHANGED wrong
       [] e.op = "vser" -> NewV(e, [comm |-> a[2], share |-> Split(Len(L[1]), Size(a[2])), val |-> L[1]]) /\ UNCHANGED wrong
       [] e.op = "vset" -> obj' = [obj EXCEPT ![vname[a[1]]].val = FoldLeft(LAMBDA v, k : SetAll(v, L[2 * k - 1], L[2 * k], a[2], 1), @, [k \in 1..(Len(L) \div 2) |-> k])] /\ UNCHANGED <<comm, vname, mname, wrong>>
       [] e.op = "vget" -> wrong' = Bad(VOK(e, VO(a[1])), "vector") /\ Keep
       [] e.op \in {"vcopy", "vassign", "vmove"} -> vname' = (IF e.op = "vmove" THEN Put(Drop(vname, a[2]), a[1], vname[a[2]]) ELSE Put(vname, a[1], vname[a[2]])) /\ UNCHANGED <<comm, mname, obj, wrong>>
       [] e.op = "vdel" -> vname' = Drop(vname, a[1]) /\ UNCHANGED <<comm, mname, obj, wrong>>
       [] e.op = "vaxpy" -> obj' = [obj EXCEPT ![vname[a[1]]].val = [i \in 1..Len(@) |-> @[i] + a[2] * VO(a[3]).val[i]]] /\ UNCHANGED <<comm, vname, mname, wrong>>
       [] e.op = "mnew" -> NewM(e, [comm |-> a[2], rs |-> IF L[1] = <<>> THEN Split(a[4], Size(a[2])) ELSE L[1], cs |-> IF L[2] = <<>> THEN Split(a[5], Size(a[2])) ELSE L[2], val |-> [i \in 1..a[4] |-> Zeros(a[5])]]) /\ UNCHANGED wrong
       [] e.op = "mser" -> NewM(e, [comm |-> a[2], rs |-> Split(a[4], Size(a[2])), cs |-> Split(a[5], Size(a[2])), val |-> Cut(L[1], a[4], a[5])]) /\ UNCHANGED wrong
       [] e.op = "mid" -> LET c == IF a[3] < 0 THEN 0 ELSE a[2] IN
            NewM(e, [comm |-> c, rs |-> Split(a[4], Size(c)), cs |-> Split(a[4], Size(c)), val |-> [i \in 1..a[4] |-> [j \in 1..a[4] |-> IF i = j THEN 1 ELSE 0]]]) /\ UNCHANGED wrong
       [] e.op = "mown" -> NewM(e, [comm |-> a[2], rs |-> Split(a[3], Size(a[2])), cs |-> Split(a[4], Size(a[2])), val |-> [i \in 1..a[3] |-> Zeros(a[4])]]) /\ UNCHANGED wrong
       [] e.op = "mset" -> obj' = [obj EXCEPT ![mname[a[1]]].val = FoldLeft(LAMBDA A, k : SetBlock(A, L[3 * k - 2], L[3 * k - 1], L[3 * k], a[2], 1), @, [k \in 1..(Len(L) \div 3) |-> k])] /\ UNCHANGED <<comm, vname, mname, wrong>>
       [] e.op = "mget" -> wrong' = Bad(MOK(e, MO(a[1])), "matrix") /\ Keep
       [] e.op \in {"mcopy", "mmove"} -> mname' = (IF e.op = "mmove" THEN Put(Drop(mname, a[2]), a[1], mname[a[2]]) ELSE Put(mname, a[1], mname[a[2]])) /\ UNCHANGED <<comm, vname, obj, wrong>>
       [] e.op = "mdel" -> mname' = Drop(mname, a[1]) /\ UNCHANGED <<comm, vname, obj, wrong>>
       [] e.op = "msub" -> LET o == MO(a[2]) n == Size(o.comm)
                               R == Flat([k \in 1..n |-> L[2 * k - 1]]) S == Flat([k \in 1..n |-> L[2 * k]]) IN
            NewM(e, [comm |-> o.comm, rs |-> [k \in 1..n |-> Len(L[2 * k - 1])], cs |-> [k \in 1..n |-> Len(L[2 * k])],
                     val |-> [i \in 1..Len(R) |-> [j \in 1..Len(S) |-> o.val[R[i] + 1][S[j] + 1]]]]) /\ UNCHANGED wrong
       [] e.op = "mcat" -> LET n == Size(a[2])
                               piece(k) == LET o == MO(L[1][k]) q == comm[a[2]][1] + (k - 1) - comm[o.comm][1] + 1 IN SubSeq(o.val, First(o.rs, q) + 1, First(o.rs, q) + o.rs[q]) IN
            NewM(e, [comm |-> a[2], rs |-> [k \in 1..n |-> Len(piece(k))], cs |-> Split(Sum(MO(L[1][1]).cs), n), val |-> Flat([k \in 1..n |-> piece(k)])]) /\ UNCHANGED wrong
       [] e.op = "maxpy" -> obj' = [obj EXCEPT ![mname[a[1]]].val = [i \in 1..Len(@) |-> [j \in 1..Len(@[i]) |-> @[i][j] + a[2] * MO(a[3]).val[i][j]]]] /\ UNCHANGED <<comm, vname, mname, wrong>>
       [] e.op = "mmul" -> obj' = [obj EXCEPT ![vname[a[1]]].val = [i \in 1..Len(@) |-> Dot(MO(a[2]).val[i], VO(a[3]).val)]] /\ UNCHANGED <<comm, vname, mname, wrong>>
       [] OTHER -> Keep /\ UNCHANGED wrong            \* assembly; empty objects
Spec == Init /\ [][Next]_vars
Conforms == wrong = {} \/ ~PrintT("@" \o ToJson([at |-> at, wrong |-> wrong]))
=============================================================================
