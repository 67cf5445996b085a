----------------------------- MODULE MergeTrace ------------------------------
(***************************************************************************)
(* Families of four sibling patches under merge, upwards and split.  State *)
(* per family: the children's boundary operators T (as given), their       *)
(* particular data, and whether it is merged.  A child with more points on *)
(* a side than another works with the trace interpolated to its points and *)
(* answers with pairwise averages.                                         *)
(* Operators, particular data and outer traces are integers; results are   *)
(* fixed-point integers.                                                   *)
(***************************************************************************)
EXTENDS HPS, TLCExt, Json
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, fam, wrong
vars == <<at, fam, wrong>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Init == at = 0 /\ fam = <<>> /\ wrong = {}

SumSeq(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
Dot(r, g) == SumSeq([k \in 1..Len(g) |-> r[k] * g[k]])
Round(x, d) == IF x >= 0 THEN (2 * x + d) \div (2 * d) ELSE -((2 * (-x) + d) \div (2 * d))
Side(g, s) == LET n == Len(g) \div 4 IN SubSeq(g, s * n + 1, (s + 1) * n)
Sides4(f(_)) == f(0) \o f(1) \o f(2) \o f(3)
RECURSIVE Refined(_, _)
Refined(t, n) == IF Len(t) >= n THEN t ELSE Refined(LET f == ToFine32(t) IN [k \in 1..Len(f) |-> Round(f[k], 32)], n)
RECURSIVE Coarse(_, _)
Coarse(t, n) == IF Len(t) <= n THEN t ELSE Coarse([j \in 1..(Len(t) \div 2) |-> Round(t[2 * j - 1] + t[2 * j], 2)], n)
RowSum(r) == SumSeq([k \in 1..Len(r) |-> Abs(r[k])])

\* the derivative of child c (n points a side) under the coarse trace g (m points a side), times S
Derivative(T, h, n, m, g, S) ==
  LET fine == TLCEval(Sides4(LAMBDA s : Refined(Side(g, s), n)))
      d == TLCEval([k \in 1..(4 * n) |-> Dot(T[k], fine) + S * h[k]])
  IN Sides4(LAMBDA s : Coarse(Side(d, s), m))
\* rounding of the trace and its refinement, amplified by the operator
Slack(T, n, m) == LET r == Max({RowSum(T[k]) : k \in 1..Len(T)}) IN IF n = m THEN r + 2 ELSE 6 * r + 4

SplitWrong(F, e) ==
  LET m == Min({F.n[k] : k \in 1..4})  S == e.S  g == e.L[1]
      c == e.g
  IN IF \E k \in 1..4 : Len(c[k]) # 4 * m THEN {"size"}
     ELSE LET d == TLCEval([k \in 1..4 |-> Derivative(F.T[k], F.h[k], F.n[k], m, c[k], S)])
              tol == Max({Slack(F.T[k], F.n[k], m) : k \in 1..4}) * 2
              G(k) == SubSeq(g, (k - 1) * m + 1, k * m)                       \* eight pieces of the outer trace
              Out(x, k) == \A i \in 1..m : Abs(x[i] - S * G(k)[i]) <= 1
              H == F.outer                                                    \* the merged operator and particular data
              dm == TLCEval([k \in 1..(8 * m) |-> Dot(H.T[k], g)])            \* times H.S
          IN (IF /\ Out(Side(c[1], 0), 1) /\ Out(Side(c[3], 0), 2) /\ Out(Side(c[2], 1), 3) /\ Out(Side(c[4], 1), 4)
                 /\ Out(Side(c[1], 2), 5) /\ Out(Side(c[2], 2), 6) /\ Out(Side(c[3], 3), 7) /\ Out(Side(c[4], 3), 8) THEN {} ELSE {"outer traces"})
             \cup (IF /\ Side(c[1], 1) = Side(c[2], 0) /\ Side(c[3], 1) = Side(c[4], 0) /\ Side(c[1], 3) = Side(c[3], 2) /\ Side(c[2], 3) = Side(c[4], 2)
                   THEN {} ELSE {"shared traces"})
             \cup (IF /\ Close(Side(d[1], 1), Side(d[2], 0), tol) /\ Close(Side(d[3], 1), Side(d[4], 0), tol)
                      /\ Close(Side(d[1], 3), Side(d[3], 2), tol) /\ Close(Side(d[2], 3), Side(d[4], 2), tol) THEN {} ELSE {"derivatives"})
             \cup (LET o == TLCEval(Side(d[1], 0) \o Side(d[3], 0) \o Side(d[2], 1) \o Side(d[4], 1) \o Side(d[1], 2) \o Side(d[2], 2) \o Side(d[3], 3) \o Side(d[4], 3))
                       lo == Min({S, H.S, F.hS})                              \* compare in the coarsest unit
                       total == SumSeq([k \in 1..Len(g) |-> Abs(g[k])])
                   IN IF \A k \in 1..(8 * m) : Abs(Round(o[k], S \div lo) - Round(dm[k], H.S \div lo) - Round(F.outh[k], F.hS \div lo))
                                                <= (tol * lo) \div S + (total * lo) \div H.S + 4 THEN {} ELSE {"merged operator"})
             \cup (IF e.tau = [k \in 1..Len(g) |-> 1000 * g[k]] THEN {} ELSE {"parent trace"})
Next ==
  LET e == Log[at + 1] IN
  /\ at < Len(Log) /\ wrong = {} /\ at' = at + 1
  /\ IF "ok" \notin DOMAIN e \/ e.ok = 0 THEN wrong' = {"stopped"} /\ UNCHANGED fam
     ELSE CASE e.op = "family" ->
                 /\ fam' = Put(fam, e.a[1], [n |-> SubSeq(e.a, 2, 5), box |-> SubSeq(e.a, 6, 9), merged |-> FALSE,
                                             T |-> TLCEval([k \in 1..4 |-> LET w == 4 * e.a[1 + k] IN [i \in 1..w |-> SubSeq(e.L[k], (i - 1) * w + 1, i * w)]])])
                 /\ UNCHANGED wrong
            [] e.op = "merge" ->
                 LET F == fam[e.a[1]] m == Min({F.n[k] : k \in 1..4}) b == F.box IN
                 /\ fam' = [fam EXCEPT ![e.a[1]] = [n |-> F.n, box |-> b, merged |-> TRUE, T |-> F.T, outer |-> [S |-> e.S, T |-> e.T]]]
                 /\ wrong' = (IF Len(e.T) = 8 * m /\ \A k \in 1..Len(e.T) : Len(e.T[k]) = 8 * m THEN {} ELSE {"size"})
                             \cup (IF e.size = 2 * m /\ e.nx = 2 * m /\ e.ny = 2 * m
                                      /\ \A k \in 1..6 : Abs(e.grid[k] - <<1000 * b[1], 1000 * (b[1] + 2 * b[3]), 1000 * b[2], 1000 * (b[2] + 2 * b[4]),
                                                                           (1000 * b[3]) \div m, (1000 * b[4]) \div m>>[k]) <= 1 THEN {} ELSE {"grid"})
                             \cup (IF e.S < 100 THEN {"range"} ELSE {})
            [] e.op = "upwards" ->
                 LET F == fam[e.a[1]] m == Min({F.n[k] : k \in 1..4}) IN
                 /\ fam' = [fam EXCEPT ![e.a[1]] = [n |-> F.n, box |-> F.box, merged |-> TRUE, T |-> F.T, outer |-> F.outer, h |-> e.L, outh |-> e.h, hS |-> e.S]]
                 /\ wrong' = (IF Len(e.h) = 8 * m THEN {} ELSE {"size"}) \cup (IF e.S < 100 THEN {"range"} ELSE {})
            [] OTHER -> /\ wrong' = (IF e.S < 100 THEN {"range"} ELSE SplitWrong(fam[e.a[1]], e)) /\ UNCHANGED fam
Spec == Init /\ [][Next]_vars
Conforms == wrong = {} \/ ~PrintT("@" \o ToJson([at |-> at, wrong |-> wrong]))
=============================================================================
