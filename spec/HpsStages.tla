------------------------------ MODULE HpsStages ------------------------------
(***************************************************************************)
(* The stages of the factorisation as the algorithm performs them on one   *)
(* adaptive tree: a root whose first child is a leaf and whose second is a *)
(* branch of four leaves (so that it is coarsened when merged).  Numerical *)
(* content is replaced by provenance: which coefficients, which load and   *)
(* which boundary data every stored item stems from, and at which          *)
(* resolution it is.  All histories of stages up to length Len are         *)
(* explored; the solution obtained has to stem from the latest data only.  *)
(* Every explored history is handed to the real code as a test.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Fixed      \* Fixed = FALSE: as found (coarsening counts survive a rebuild, stale particular data in Robin solves)
VARIABLES hist, coef, zero, T, nc, h, w, F, sol,   \* what is stored
          bcoef, load                              \* what a user relies on: coefficients built with, load given since
vars == <<hist, coef, zero, T, nc, h, w, F, sol, bcoef, load>>
None == -1
Bad == -2
Native(n) == CASE n = "leaf" -> 1 [] n = "branch" -> 2 [] OTHER -> 2     \* points per side; "leaf" stands for the coarse leaf and the fine ones
Size(n, k) == Native(n) \div (2 ^ k)

Init == /\ hist = <<>> /\ coef = 1 /\ zero = FALSE /\ T = [leaf |-> <<>>, branch |-> <<>>, root |-> <<>>]
        /\ nc = 0 /\ h = [leaf |-> <<>>, branch |-> <<>>, root |-> <<>>] /\ w = [branch |-> None, root |-> None]
        /\ F = None /\ sol = <<>> /\ bcoef = None /\ load = None

Build == LET n0 == IF Fixed THEN 0 ELSE nc
             tag == IF Size("branch", n0) > 1 THEN 1 ELSE 0      \* coarsenings needed to match the leaf
             res == 2 \div (2 ^ tag)                               \* resolution of the branch's operator after coarsening
         IN /\ nc' = n0 + tag
            /\ T' = [leaf |-> <<coef, 1>>, branch |-> <<coef, res>>, root |-> IF res = 1 THEN <<coef, 2>> ELSE <<Bad>>]
            /\ bcoef' = coef /\ load' = None
            /\ hist' = Append(hist, "build") /\ UNCHANGED <<coef, zero, h, w, F, sol>>
Coef == /\ coef' = 3 - coef /\ hist' = Append(hist, "coef") /\ UNCHANGED <<zero, T, nc, h, w, F, sol, bcoef, load>>
\* the boundary operators are those of bcoef; a load is only meaningful after a build with the current coefficients
Up(f) == /\ bcoef = coef /\ (zero => f = 0)
         /\ F' = f
         /\ IF zero THEN h' = [h EXCEPT !.leaf = <<f, 1>>] /\ w' = w
            ELSE /\ h' = [leaf |-> <<f, 1>>, branch |-> <<f, 2 \div (2 ^ nc)>>, root |-> <<f, 2>>]
                 /\ w' = [branch |-> f, root |-> IF 2 \div (2 ^ nc) = 1 THEN f ELSE <<Bad>>]
         /\ load' = (IF zero THEN None ELSE f)      \* declared free of load, the stage computes nothing to rely on later
         /\ hist' = Append(hist, CASE f = 0 -> "up0" [] f = 1 -> "up1" [] OTHER -> "up2") /\ UNCHANGED <<coef, zero, T, nc, sol, bcoef>>
Relied == IF zero THEN 0 ELSE load
Solve(kind) ==
  /\ bcoef = coef /\ Relied # None
  \* Robin data are turned into Dirichlet data with the root's operator and particular data
  /\ LET particular == IF kind = "robin" THEN (IF Fixed /\ zero THEN 0 ELSE IF h.root = <<>> THEN Bad ELSE h.root[1]) ELSE Relied
         interior == IF zero THEN 0 ELSE w.root
         below == IF zero THEN 0 ELSE w.branch
         f == IF zero THEN 0 ELSE F
     IN sol' = <<T.root, T.branch, nc, particular, interior, below, f>>
  /\ F' = IF zero THEN 0 ELSE F
  /\ load' = IF zero THEN None ELSE load
  /\ hist' = Append(hist, kind) /\ UNCHANGED <<coef, zero, T, nc, h, w, bcoef>>
Zero == /\ zero' = ~zero /\ hist' = Append(hist, IF zero THEN "nonzero" ELSE "zero") /\ UNCHANGED <<coef, T, nc, h, w, F, sol, bcoef, load>>
Next == Len(hist) < MaxLen /\ (Build \/ Coef \/ (\E f \in 0..2 : Up(f)) \/ (\E k \in {"dirichlet", "robin"} : Solve(k)) \/ Zero)
Spec == Init /\ [][Next]_vars

JustSolved == hist # <<>> /\ hist[Len(hist)] \in {"dirichlet", "robin"}
\* the load in force at that solve
InForce == IF zero THEN 0 ELSE load
Latest == JustSolved => sol = <<<<coef, 2>>, <<coef, 1>>, 1, InForce, InForce, InForce, InForce>>
Emit == JustSolved => PrintT("@" \o ToJson(hist))
=============================================================================
