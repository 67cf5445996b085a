----------------------------- MODULE HpsCompare ------------------------------
(***************************************************************************)
(* The same script of stages on one process (one.0) and on P processes     *)
(* (log.0 .. log.P-1): after every solve each leaf is on exactly one       *)
(* process with the solution, load and trace of the one-process run; after *)
(* every build each copy of a node carries the operators and particular    *)
(* data of the one-process run.  Numbers are fixed-point, scaled by S.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS P
Ranks == 0..(P - 1)
One == TLCEval(ndJsonDeserialize("one.0"))
Log == TLCEval([r \in Ranks |-> ndJsonDeserialize("log." \o ToString(r))])
VARIABLES k, wrong, leaf, node
vars == <<k, wrong, leaf, node>>
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Same(x, Sx, y, Sy) ==
  LET M == Max(Sx, Sy) IN
  /\ Len(x) = Len(y)
  /\ Max(M \div Sx, M \div Sy) <= 10
  /\ \A i \in 1..Len(x) : Abs(x[i] * (M \div Sx) - y[i] * (M \div Sy)) <= 2 * Max(M \div Sx, M \div Sy)
Paths(s) == {s[i].p : i \in 1..Len(s)}
Entry(s, p) == s[CHOOSE i \in 1..Len(s) : s[i].p = p]
LeafWrong(a, Sa, b, Sb) == (IF Same(a.u, Sa, b.u, Sb) THEN {} ELSE {"u"}) \cup (IF Same(a.g, Sa, b.g, Sb) THEN {} ELSE {"g"}) \cup (IF a.f = b.f THEN {} ELSE {"f"})
NodeWrong(a, Sa, b, Sb) == (IF Same(a.T, Sa, b.T, Sb) THEN {} ELSE {"T"}) \cup (IF Same(a.S, Sa, b.S, Sb) THEN {} ELSE {"S"})
                           \cup (IF Same(a.h, Sa, b.h, Sb) THEN {} ELSE {"h"}) \cup (IF Same(a.w, Sa, b.w, Sb) THEN {} ELSE {"w"})
Init == k = 0 /\ wrong = {} /\ leaf = 0 /\ node = 0
Compare ==
  LET j == k + 1 o == One[j] IN
  /\ k < Len(One) /\ wrong = {}
  /\ k' = j
  /\ IF \E r \in Ranks : j > Len(Log[r]) \/ Log[r][j].ev # o.ev THEN wrong' = {"events"} /\ UNCHANGED <<leaf, node>>
     ELSE CASE o.ev = "sol" ->
                 /\ leaf' = leaf + Len(o.leaves) /\ UNCHANGED node
                 /\ wrong' = (IF \A p \in Paths(o.leaves) : Cardinality({r \in Ranks : p \in Paths(Log[r][j].leaves)}) = 1 THEN {} ELSE {"holders"})
                             \cup UNION {UNION {LET l == Log[r][j].leaves[i] IN
                                                IF l.p \in Paths(o.leaves) THEN LeafWrong(Entry(o.leaves, l.p), o.S, l, Log[r][j].S) ELSE {"holders"}
                                                : i \in 1..Len(Log[r][j].leaves)} : r \in Ranks}
            [] o.ev = "ops" ->
                 /\ node' = node + Len(o.nodes) /\ UNCHANGED leaf
                 /\ wrong' = (IF \A p \in Paths(o.nodes) : \E r \in Ranks : p \in Paths(Log[r][j].nodes) THEN {} ELSE {"holders"})
                             \cup UNION {UNION {LET l == Log[r][j].nodes[i] IN
                                                IF l.p \in Paths(o.nodes) THEN NodeWrong(Entry(o.nodes, l.p), o.S, l, Log[r][j].S) ELSE {"holders"}
                                                : i \in 1..Len(Log[r][j].nodes)} : r \in Ranks}
            [] OTHER -> wrong' = {} /\ UNCHANGED <<leaf, node>>
Next == Compare
Spec == Init /\ [][Next]_vars
Agree == wrong = {} \/ ~PrintT("@" \o ToJson([at |-> k, wrong |-> wrong]))
=============================================================================
