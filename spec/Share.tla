------------------------------- MODULE Share ---------------------------------
(* How n global entries are shared by P processes in contiguous pieces when nothing else is asked for. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Split(n, P) == [r \in 1..P |-> (n \div P) + (IF r - 1 < n % P THEN 1 ELSE 0)]
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
First(s, r) == Sum(SubSeq(s, 1, r - 1))                   \* entries before process r's (r from 1)
Owner(s, i) == CHOOSE r \in 1..Len(s) : First(s, r) <= i /\ i < First(s, r) + s[r]
ASSUME \A n \in 0..20, P \in 1..7 :
  LET s == Split(n, P) IN
  /\ Sum(s) = n
  /\ \A i \in 0..(n - 1) : Cardinality({r \in 1..P : First(s, r) <= i /\ i < First(s, r) + s[r]}) = 1
  /\ \A r \in 1..P, q \in 1..P : s[r] - s[q] \in {-1, 0, 1}
=============================================================================
