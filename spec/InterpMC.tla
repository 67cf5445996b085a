------------------------------ MODULE InterpMC -------------------------------
(***************************************************************************)
(* The search for the segment, with its memory: the place last found and   *)
(* whether to hunt from there or to bisect everything.  Whatever was asked  *)
(* before, the segment found is one whose line applies.                    *)
(* xs = 0, 1, .., n-1 (or reversed); queries are halves from -1 to n.      *)
(***************************************************************************)
EXTENDS Interp, TLC
CONSTANTS NMax, Defect
Hints == -1..(NMax + 1)
VARIABLES n, up, hint, hunt, q, found
vars == <<n, up, hint, hunt, q, found>>
X(k) == IF up THEN k ELSE n - 1 - k                            \* samples, k = 0..n-1
Beyond(x, k) == (x >= 4 * X(k)) = up                           \* x in quarters lies at or beyond sample k
RECURSIVE Bisect(_, _, _)
Bisect(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF Beyond(x, m) THEN Bisect(x, m, hi) ELSE Bisect(x, lo, m)
RECURSIVE HuntUp(_, _, _), HuntDown(_, _, _)
HuntUp(x, lo, inc) == LET hi == lo + inc IN
  IF hi >= n - 1 THEN Bisect(x, lo, n - 1) ELSE IF ~Beyond(x, hi) THEN Bisect(x, lo, hi) ELSE HuntUp(x, hi, IF Defect THEN inc ELSE 2 * inc)
HuntDown(x, hi, inc) == LET lo == hi - inc IN
  IF lo <= 0 THEN (IF Defect THEN 0 ELSE Bisect(x, 0, hi)) ELSE IF Beyond(x, lo) THEN Bisect(x, lo, hi) ELSE HuntDown(x, lo, 2 * inc)
Clip(k) == IF k > n - 2 THEN n - 2 ELSE IF k < 0 THEN 0 ELSE k
Search(x) == Clip(IF ~hunt \/ hint < 0 \/ hint > n - 1 THEN Bisect(x, 0, n - 1) ELSE IF Beyond(x, hint) THEN HuntUp(x, hint, 1) ELSE HuntDown(x, hint, 1))
Init == n \in 2..NMax /\ up \in BOOLEAN /\ hint \in Hints /\ hunt = FALSE /\ q = 0 /\ found = -1
Ask == \E x \in {2 * k : k \in -2..(2 * n)} :
         /\ q' = x /\ found' = Search(x)
         /\ hint' \in Hints /\ hunt' \in BOOLEAN               \* whatever the memory is set to
         /\ UNCHANGED <<n, up>>
Spec == Init /\ [][Ask]_vars
Right == found = -1 \/ (found + 1) \in SegmentsAt([k \in 1..n |-> X(k - 1)], q)
=============================================================================
