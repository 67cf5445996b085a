------------------------------ MODULE LeafTrace ------------------------------
(***************************************************************************)
(* The leaf solver: solutions of the five-point equations, and the affine  *)
(* map from boundary trace to boundary derivative.  State: the solvers and *)
(* their coefficient functions; a call depends on nothing else.            *)
(* Cells are hx/2^e by hy/2^e; positions are counted in half cells.        *)
(***************************************************************************)
EXTENDS HPS, TLCExt, Json
CONSTANTS Focus                  \* "solve" or "map": which property is asked about
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, solver, wrong
vars == <<at, solver, wrong>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Init == at = 0 /\ solver = <<>> /\ wrong = {}

\* the four sides of the cells next to the boundary, in the order west, east, south, north
Edge(n, u) == [k \in 1..(4 * n) |-> LET s == (k - 1) \div n i == (k - 1) % n IN
                 CASE s = 0 -> u[i + 1] [] s = 1 -> u[i + (n - 1) * n + 1] [] s = 2 -> u[i * n + 1] [] OTHER -> u[i * n + n]]
SumSeq(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
Dot(r, g) == SumSeq([k \in 1..Len(g) |-> r[k] * g[k]])

SolveWrong(sv, e) ==
  LET a == e.a n == a[2] S == e.S pw == 4 ^ a[7] IN
  IF Len(e.u) # n * n THEN {"size"}
  ELSE LET Q == [nx |-> n, hx |-> a[5], hy |-> a[6], lev |-> 0, alpha |-> sv.alpha, beta |-> sv.beta, lambda |-> sv.lambda]
           G(s, k) == S * e.L[1][s * n + k + 1]
           U(i, j) == e.u[j + i * n + 1]
       IN IF \A i \in 0..(n - 1), j \in 0..(n - 1) :
               LET uc == U(i, j) X == 2 * i + 1 Y == 2 * j + 1
                   uw == IF i = 0 THEN 2 * G(0, j) - uc ELSE U(i - 1, j)
                   ue == IF i = n - 1 THEN 2 * G(1, j) - uc ELSE U(i + 1, j)
                   us == IF j = 0 THEN 2 * G(2, i) - uc ELSE U(i, j - 1)
                   un == IF j = n - 1 THEN 2 * G(3, i) - uc ELSE U(i, j + 1)
                   al == Eval(sv.alpha, X, Y) l == Eval(sv.lambda, X, Y)
                   bw == Eval(sv.beta, X - 1, Y) be == Eval(sv.beta, X + 1, Y) bs == Eval(sv.beta, X, Y - 1) bn == Eval(sv.beta, X, Y + 1)
                   x2 == a[5] * a[5] y2 == a[6] * a[6] v == x2 * y2
                   \* times v: 4^e alpha (...) + lambda u v = f v
                   lhs == pw * al * (y2 * (bw * (uw - uc) + be * (ue - uc)) + x2 * (bs * (us - uc) + bn * (un - uc))) + l * v * uc
                   tol == pw * al * 2 * (y2 * (bw + be) + x2 * (bs + bn)) + Abs(l) * v + 2
               IN Abs(lhs - v * e.L[2][j + i * n + 1] * S) <= tol
          THEN {} ELSE {"equations"}
Kept(e) == e.g = [k \in 1..Len(e.L[1]) |-> 1000 * e.L[1][k]] /\ e.f = [k \in 1..Len(e.L[2]) |-> 1000 * e.L[2][k]]
MapWrong(sv, e) ==
  LET a == e.a n == a[2] S == e.S q == 2 ^ a[7] g == e.L[1] IN
  IF Len(e.h) # 4 * n \/ Len(e.p) # 4 * n \/ Len(e.T) # 4 * n \/ \E k \in 1..Len(e.T) : Len(e.T[k]) # 4 * n \/ Len(e.u) # n * n THEN {"size"}
  ELSE LET b == Edge(n, e.u)
           w(k) == IF k <= 2 * n THEN a[5] ELSE a[6]
           sgn(k) == IF (k - 1) \div n \in {0, 2} THEN 1 ELSE -1
           total == SumSeq([k \in 1..Len(g) |-> Abs(g[k])])
       IN (IF \A k \in 1..(4 * n) : Abs(w(k) * e.h[k] - sgn(k) * 2 * q * (b[k] - S * g[k])) <= w(k) + 2 * q THEN {} ELSE {"difference"})
          \cup (IF \A k \in 1..(4 * n) : Abs(Dot(e.T[k], g) + e.p[k] - e.h[k]) <= total + 2 THEN {} ELSE {"affine"})
          \cup (IF sv.lambda = Zero => \A k \in 1..(4 * n) : Abs(SumSeq(e.T[k])) <= 4 * n THEN {} ELSE {"constants"})
          \cup (IF (\A k \in 1..Len(e.L[2]) : e.L[2][k] = 0) => \A k \in 1..(4 * n) : e.p[k] = 0 THEN {} ELSE {"no load"})
Next ==
  LET e == Log[at + 1] IN
  /\ at < Len(Log) /\ wrong = {} /\ at' = at + 1
  /\ IF "ok" \notin DOMAIN e \/ e.ok = 0 THEN wrong' = {"stopped"} /\ UNCHANGED solver
     ELSE IF e.op = "solver" THEN
          /\ solver' = Put(solver, e.a[1], IF e.a[2] = 1 THEN [alpha |-> <<0, 1, 0, 0, 0, 1>>, beta |-> <<0, 1, 0, 0, 0, 1>>, lambda |-> e.L[3]]
                                           ELSE [alpha |-> e.L[1], beta |-> e.L[2], lambda |-> e.L[3]])
          /\ UNCHANGED wrong
     ELSE /\ UNCHANGED solver
          /\ LET sv == solver[e.a[1]] IN
             wrong' = IF e.S < 100 \/ \E k \in 1..Len(e.u) : Abs(e.u[k]) > 1100000 THEN {"range"}
                      ELSE (IF Kept(e) THEN {} ELSE {"inputs"}) \cup (IF e.off = 0 THEN {} ELSE {"points"})
                           \cup (IF Focus = "solve" THEN SolveWrong(sv, e) ELSE MapWrong(sv, e))
Spec == Init /\ [][Next]_vars
Conforms == wrong = {} \/ ~PrintT("@" \o ToJson([at |-> at, wrong |-> wrong]))
=============================================================================
