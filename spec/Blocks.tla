-------------------------------- MODULE Blocks --------------------------------
(* Block-diagonal assembly: blocks of any shapes in order, zeros elsewhere (entries in 1/32). *)
EXTENDS Integers, Sequences, SequencesExt, TLC, TLCExt, Json
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, wrong
Sum(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
NB(e) == Len(e.L)
R(e, k) == e.a[2 * k - 1]
C(e, k) == e.a[2 * k]
RowStart(e, k) == Sum([j \in 1..(k - 1) |-> R(e, j)])
ColStart(e, k) == Sum([j \in 1..(k - 1) |-> C(e, j)])
Entry(e, i, j) ==
  LET ks == {k \in 1..NB(e) : i > RowStart(e, k) /\ i <= RowStart(e, k) + R(e, k) /\ j > ColStart(e, k) /\ j <= ColStart(e, k) + C(e, k)} IN
  IF ks = {} THEN 0 ELSE LET k == CHOOSE x \in ks : TRUE IN 32 * e.L[k][(i - RowStart(e, k) - 1) * C(e, k) + (j - ColStart(e, k))]
Expected(e) == [i \in 1..RowStart(e, NB(e) + 1) |-> [j \in 1..ColStart(e, NB(e) + 1) |-> Entry(e, i, j)]]
Init == at = 0 /\ wrong = FALSE
Next == /\ at < Len(Log) /\ ~wrong /\ at' = at + 1
        /\ LET e == Log[at + 1] IN wrong' = ~(e.ok = 1 /\ e.m = Expected(e) /\ e.r = Len(e.m) /\ e.c = Len(e.m[1]))
Spec == Init /\ [][Next]_<<at, wrong>>
Conforms == ~wrong \/ ~PrintT("@" \o ToJson(Log[at]))
=============================================================================
