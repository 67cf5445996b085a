--------------------------------- MODULE HPS ---------------------------------
(***************************************************************************)
(* What a hierarchical Poincare-Steklov solve has to deliver, in integers. *)
(* A problem Q: nx cells per patch side, finest cell hx by hy, depth lev,  *)
(* branches B; positions are counted in halves of the finest cell from the *)
(* lower-left corner of the domain.  Coefficients, load and boundary data  *)
(* are integer functions of the position.  Solution values are fixed-point *)
(* integers: value times S, rounded.                                       *)
(*                                                                         *)
(*   alpha div(beta grad u) + lambda u = f                                 *)
(***************************************************************************)
EXTENDS Tree, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
\* kind 0: constant; 1: linear; 2: scattered (period m)
Eval(k, X, Y) == CASE k[1] = 0 -> k[2]
                   [] k[1] = 1 -> k[2] + k[3] * X + k[4] * Y
                   [] OTHER -> k[2] + ((k[3] * X + k[4] * Y + k[5] * X * Y) % k[6])

\* ---- one patch: grid cell (i, j) of leaf p, index j + i nx (y fastest)
Width(Q, p) == 2 ^ (Q.lev - Len(p))                       \* cell width in finest cells
Corner(Q, p) == Square(p, Q.nx * 2 ^ Q.lev)               \* in finest cells
CX(Q, p, i) == 2 * Corner(Q, p)[1] + (2 * i + 1) * Width(Q, p)
CY(Q, p, j) == 2 * Corner(Q, p)[2] + (2 * j + 1) * Width(Q, p)
Cell(Q, u, i, j) == u[j + i * Q.nx + 1]

\* The five-point equation at a cell with centre X, Y (half-widths), cell width w, multiplied by (w hx hy)^2:
\* uc and its neighbours uw, ue, us, un; load f.  Zero up to what rounding of the values can cause.
EquationHolds(Q, S, w, X, Y, uc, uw, ue, us, un, f) ==
  LET a == Eval(Q.alpha, X, Y)
      bw == Eval(Q.beta, X - w, Y)  be == Eval(Q.beta, X + w, Y)
      bs == Eval(Q.beta, X, Y - w)  bn == Eval(Q.beta, X, Y + w)
      l == Eval(Q.lambda, X, Y)
      x2 == Q.hx * Q.hx  y2 == Q.hy * Q.hy  v == w * w * x2 * y2
      lhs == a * (y2 * (bw * (uw - uc) + be * (ue - uc)) + x2 * (bs * (us - uc) + bn * (un - uc))) + l * v * uc
      tol == Abs(a) * 2 * (y2 * (bw + be) + x2 * (bs + bn)) + Abs(l) * v + 2
  IN Abs(lhs - v * f * S) <= tol

\* a leaf: data d = [u, g] with g ordered west, east, south, north; boundary values lie half-way to the ghost cell
LeafHolds(Q, S, p, d, load) ==
  LET n == Q.nx  w == Width(Q, p)  c == TLCEval(Corner(Q, p))
      G(side, k) == d.g[side * n + k + 1]
  IN \A i \in 0..(n - 1), j \in 0..(n - 1) :
       LET uc == Cell(Q, d.u, i, j) X == 2 * c[1] + (2 * i + 1) * w Y == 2 * c[2] + (2 * j + 1) * w IN
       EquationHolds(Q, S, w, X, Y, uc,
         IF i = 0 THEN 2 * G(0, j) - uc ELSE Cell(Q, d.u, i - 1, j),
         IF i = n - 1 THEN 2 * G(1, j) - uc ELSE Cell(Q, d.u, i + 1, j),
         IF j = 0 THEN 2 * G(2, i) - uc ELSE Cell(Q, d.u, i, j - 1),
         IF j = n - 1 THEN 2 * G(3, i) - uc ELSE Cell(Q, d.u, i, j + 1),
         Eval(load, X, Y))

\* ---- sides: traces g and derivatives h (positive coordinate direction) as four sequences W, E, S, N.
\* h is in units of 2 / (width of a cell of a patch the size of the domain): 2^level (u - g)
LeafSides(Q, p, d) ==
  LET n == Q.nx  s == 2 ^ Len(p)
      g == [k \in 1..4 |-> SubSeq(d.g, (k - 1) * n + 1, k * n)]
      h == <<[k \in 1..n |-> s * (Cell(Q, d.u, 0, k - 1) - g[1][k])],
             [k \in 1..n |-> s * (g[2][k] - Cell(Q, d.u, n - 1, k - 1))],
             [k \in 1..n |-> s * (Cell(Q, d.u, k - 1, 0) - g[3][k])],
             [k \in 1..n |-> s * (g[4][k] - Cell(Q, d.u, k - 1, n - 1))]>>
  IN [n |-> n, g |-> g, h |-> h, bad |-> {}]

\* fine side from coarse side (times 32), the coarse side that a fine side comes from, and pairwise averages
ToFine32(t) ==
  LET m == Len(t) IN
  [i \in 1..(2 * m) |->
     IF i = 1 THEN 45 * t[1] - 18 * t[2] + 5 * t[3]
     ELSE IF i = 2 * m THEN 45 * t[m] - 18 * t[m - 1] + 5 * t[m - 2]
     ELSE IF i % 2 = 0 THEN 24 * t[i \div 2] + 8 * t[i \div 2 + 1]
     ELSE 8 * t[i \div 2] + 24 * t[i \div 2 + 1]]
Recover(f) ==
  LET m == Len(f) \div 2 IN
  [j \in 1..m |-> IF j = 1 THEN (3 * f[2] - f[3]) \div 2 ELSE (3 * f[2 * j - 1] - f[2 * j - 2]) \div 2]
Averages(f) == [j \in 1..(Len(f) \div 2) |-> (f[2 * j - 1] + f[2 * j]) \div 2]
Close(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Abs(s[i] - t[i]) <= tol

\* seen from a coarser neighbourhood: halve the number of points until there are m
RECURSIVE Coarsened(_, _, _)
Coarsened(x, m, tol) ==
  IF x.n <= m THEN x
  ELSE LET t == TLCEval([k \in 1..4 |-> Recover(x.g[k])])
           fits == \A k \in 1..4 : Close(ToFine32(t[k]), [i \in 1..x.n |-> 32 * x.g[k][i]], 32 * tol)
       IN Coarsened([n |-> x.n \div 2, g |-> t, h |-> [k \in 1..4 |-> Averages(x.h[k])],
                     bad |-> x.bad \cup (IF fits THEN {} ELSE {"trace"})], m, 3 * tol)

\* the sides of any node, from its leaves up; collects what is wrong at interfaces below it
RECURSIVE Sides(_, _, _)
Sides(Q, D, p) ==
  IF p \notin Q.B THEN LeafSides(Q, p, D[p])
  ELSE LET k == TLCEval([i \in 1..4 |-> Sides(Q, D, Append(p, i - 1))])
           m == Min({k[i].n : i \in 1..4})
           c == TLCEval([i \in 1..4 |-> Coarsened(k[i], m, 6)])
           gt == 4 * 3 ^ Q.lev  ht == 4 * 2 ^ Q.lev + gt
           same == /\ Close(c[1].g[2], c[2].g[1], gt) /\ Close(c[3].g[2], c[4].g[1], gt)
                   /\ Close(c[1].g[4], c[3].g[3], gt) /\ Close(c[2].g[4], c[4].g[3], gt)
           flux == /\ Close(c[1].h[2], c[2].h[1], ht) /\ Close(c[3].h[2], c[4].h[1], ht)
                   /\ Close(c[1].h[4], c[3].h[3], ht) /\ Close(c[2].h[4], c[4].h[3], ht)
           Both(f, a, b, s) == f[a][s] \o f[b][s]
           gs == [i \in 1..4 |-> c[i].g]  hs == [i \in 1..4 |-> c[i].h]
       IN [n |-> 2 * m,
           g |-> <<Both(gs, 1, 3, 1), Both(gs, 2, 4, 2), Both(gs, 1, 2, 3), Both(gs, 3, 4, 4)>>,
           h |-> <<Both(hs, 1, 3, 1), Both(hs, 2, 4, 2), Both(hs, 1, 2, 3), Both(hs, 3, 4, 4)>>,
           bad |-> c[1].bad \cup c[2].bad \cup c[3].bad \cup c[4].bad
                   \cup (IF same THEN {} ELSE {"trace"}) \cup (IF flux THEN {} ELSE {"flux"})]

\* ---- the boundary of the domain: side s = 0..3, point k = 0..n-1 of the n points of a side
PX(Q, n, s, k) == LET W == Q.nx * 2 ^ Q.lev IN CASE s = 0 -> 0 [] s = 1 -> 2 * W [] OTHER -> (2 * k + 1) * (W \div n)
PY(Q, n, s, k) == LET W == Q.nx * 2 ^ Q.lev IN CASE s = 2 -> 0 [] s = 3 -> 2 * W [] OTHER -> (2 * k + 1) * (W \div n)
\* a u + b u_n = r; direct: u = r
BoundaryHolds(Q, S, root, bc) ==
  \A s \in 0..3 : \A k \in 0..(root.n - 1) :
    LET X == PX(Q, root.n, s, k) Y == PY(Q, root.n, s, k)
        g == root.g[s + 1][k + 1]  h == root.h[s + 1][k + 1]
    IN IF bc.direct THEN Abs(g - S * Eval(bc.r[s + 1], X, Y)) <= 2 * 3 ^ Q.lev
       ELSE LET a == Eval(bc.a[s + 1], X, Y) b == Eval(bc.b[s + 1], X, Y) r == Eval(bc.r[s + 1], X, Y)
                \* derivative = 2 h / (hx 2^lev): h counts cells of width hx 2^lev
                hh == (IF s < 2 THEN Q.hx ELSE Q.hy) * 2 ^ Q.lev
            IN Abs(a * g * hh + 2 * b * h - r * S * hh) <= Abs(a) * hh * 2 * 3 ^ Q.lev + Abs(b) * (8 * 2 ^ Q.lev) + 2

\* ---- the undivided grid of a uniform mesh of depth L: the cell (I, J) lies in the patch with these digits
Uniform(Q) == Q.B # {} => \A p \in LeavesOf(Q.B) : Len(p) = Q.lev
RECURSIVE PatchIndex(_, _, _, _)          \* its number (from 0) in tree order; n: cells of a patch of this depth
PatchIndex(L, n, I, J) ==
  IF L = 0 THEN 0
  ELSE LET h == n * 2 ^ (L - 1) IN (((I \div h) % 2) + 2 * ((J \div h) % 2)) * 4 ^ (L - 1) + PatchIndex(L - 1, n, I, J)
PathOf(L, k) == [i \in 1..L |-> (k \div 4 ^ (L - i)) % 4]
UndividedHolds(Q, S, D, load, bc) ==
  LET N == Q.nx * 2 ^ Q.lev
      K == TLCEval([k \in 1..(4 ^ Q.lev) |-> D[PathOf(Q.lev, k - 1)].u])
      U == TLCEval([I \in 0..(N - 1) |-> TLCEval([J \in 0..(N - 1) |-> Cell(Q, K[PatchIndex(Q.lev, Q.nx, I, J) + 1], I % Q.nx, J % Q.nx)])])
      G(s, k) == S * Eval(bc.r[s + 1], PX(Q, N, s, k), PY(Q, N, s, k))      \* prescribed Dirichlet data
  IN \A I \in 0..(N - 1), J \in 0..(N - 1) :
       EquationHolds(Q, S, 1, 2 * I + 1, 2 * J + 1, U[I][J],
         IF I = 0 THEN 2 * G(0, J) - U[I][J] ELSE U[I - 1][J], IF I = N - 1 THEN 2 * G(1, J) - U[I][J] ELSE U[I + 1][J],
         IF J = 0 THEN 2 * G(2, I) - U[I][J] ELSE U[I][J - 1], IF J = N - 1 THEN 2 * G(3, I) - U[I][J] ELSE U[I][J + 1],
         Eval(load, 2 * I + 1, 2 * J + 1))

\* ---- data of one linear function c + pX + qY on all four sides, with constant coefficients, no zeroth-order term and no load:
\* the solution is that function (lin is its 6-tuple)
Linear(Q, load, bc) ==
  /\ \A s \in 1..4 : bc.r[s] = bc.r[1] /\ bc.r[1][1] \in {0, 1}
  /\ bc.direct \/ \A s \in 1..4 : bc.a[s] = <<0, 1, 0, 0, 0, 1>> /\ bc.b[s] = <<0, 0, 0, 0, 0, 1>>
  /\ Q.alpha[1] = 0 /\ Q.beta[1] = 0 /\ Q.lambda[1] = 0 /\ Q.lambda[2] = 0 /\ load[1] = 0 /\ load[2] = 0
LinearHolds(Q, S, D, lin) ==
  \A p \in LeavesOf(Q.B) : LET c == TLCEval(Corner(Q, p)) w == Width(Q, p) u == D[p].u IN
     \A i \in 0..(Q.nx - 1), j \in 0..(Q.nx - 1) :
       Abs(Cell(Q, u, i, j) - S * Eval(lin, 2 * c[1] + (2 * i + 1) * w, 2 * c[2] + (2 * j + 1) * w)) <= 1
LoadHolds(Q, D, load) ==
  \A p \in LeavesOf(Q.B) : LET c == TLCEval(Corner(Q, p)) w == Width(Q, p) f == D[p].f IN
     /\ Len(f) = Q.nx * Q.nx
     /\ \A i \in 0..(Q.nx - 1), j \in 0..(Q.nx - 1) : Cell(Q, f, i, j) = 1000 * Eval(load, 2 * c[1] + (2 * i + 1) * w, 2 * c[2] + (2 * j + 1) * w)

Zero == <<0, 0, 0, 0, 0, 1>>
Dirichlet(bc) == bc.direct \/ \A s \in 1..4 : bc.a[s] = <<0, 1, 0, 0, 0, 1>> /\ bc.b[s] = Zero
\* everything that is wrong with the leaf data D (path -> [u, g]) as a solution
Wrong(Q, S, D, load, bc) ==
  IF \E p \in LeavesOf(Q.B) : Len(D[p].u) # Q.nx * Q.nx \/ Len(D[p].g) # 4 * Q.nx THEN {"size"}
  ELSE IF \E p \in LeavesOf(Q.B) : \E i \in 1..Len(D[p].u) : Abs(D[p].u[i]) > 2100000 THEN {"range"}
  ELSE IF \E p \in LeavesOf(Q.B) : \E i \in 1..Len(D[p].g) : Abs(D[p].g[i]) > 2100000 THEN {"range"}
  ELSE LET root == TLCEval(Sides(Q, D, <<>>)) IN
       root.bad
       \cup (IF \A p \in LeavesOf(Q.B) : LeafHolds(Q, S, p, D[p], load) THEN {} ELSE {"leaf"})
       \cup (IF BoundaryHolds(Q, S, root, bc) THEN {} ELSE {"boundary"})
       \cup (IF Uniform(Q) /\ Dirichlet(bc) => UndividedHolds(Q, S, D, load, bc) THEN {} ELSE {"undivided"})
       \cup (IF Linear(Q, load, bc) => LinearHolds(Q, S, D, bc.r[1]) THEN {} ELSE {"linear"})
=============================================================================
