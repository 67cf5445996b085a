------------------------------- MODULE Interp --------------------------------
(***************************************************************************)
(* Straight-line interpolation.  Samples xs (strictly monotone integers    *)
(* with steps 1, 2, 4 or 8) and ys (integers); a query q is in quarters,   *)
(* a value in thirty-seconds.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Ascending(xs) == xs[Len(xs)] > xs[1]
Sign(xs) == IF Ascending(xs) THEN 1 ELSE -1
\* segment whose line applies at q; segments are numbered 1 .. Len(xs) - 1
SegmentsAt(xs, q) ==
  LET n == Len(xs) s == Sign(xs) IN
  {j \in 1..(n - 1) : (j = 1 \/ s * q >= s * 4 * xs[j]) /\ (j = n - 1 \/ s * q <= s * 4 * xs[j + 1])}
On(xs, ys, j, q) == 32 * ys[j] + ((8 * (q - 4 * xs[j]) * (ys[j + 1] - ys[j])) \div (xs[j + 1] - xs[j]))
At(xs, ys, q) == On(xs, ys, Min(SegmentsAt(xs, q)), q)
=============================================================================
