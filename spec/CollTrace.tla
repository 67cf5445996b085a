------------------------------ MODULE CollTrace ------------------------------
(***************************************************************************)
(* The communication of an execution: mpi.0 .. mpi.(P-1) list, per process, *)
(* the MPI operations it posted, with the members of the communicator, the  *)
(* kind, the root (world rank, -1 if none), and the payload size in bytes   *)
(* (-1 where members may differ).  A collective operation happens when all  *)
(* members of its communicator are at it; a send happens with its receive.  *)
(* The logs are accepted when everything happens.  Since what a process     *)
(* posts does not depend on the speed of the others (no wildcard receives,  *)
(* no polling), acceptance means that no scheduling can block.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, TLCExt, Json
CONSTANTS P
Ranks == 0..(P - 1)
Raw == TLCEval([r \in Ranks |-> ndJsonDeserialize("mpi." \o ToString(r))])
\* processes outside a group return at once from creating its communicator
Log == TLCEval([r \in Ranks |-> SelectSeq(Raw[r], LAMBDA e : e.k # "create" \/ r \in Range(e.m))])
VARIABLE pc
Has(r) == pc[r] < Len(Log[r])
E(r) == Log[r][pc[r] + 1]
P2P == {"send", "recv"}
Same(d, e) == d.k = e.k /\ d.c = e.c /\ d.m = e.m /\ d.r = e.r /\ d.n = e.n
Ready(r) == /\ Has(r)
            /\ LET e == E(r) IN
               IF e.k \in P2P
               THEN /\ e.r \in Ranks /\ Has(e.r)
                    /\ LET d == E(e.r) IN d.k \in P2P /\ d.k # e.k /\ d.r = r /\ d.n = e.n /\ d.c = e.c
               ELSE r \in Range(e.m) /\ (\A q \in Range(e.m) : Has(q) /\ Same(E(q), e)) /\ (e.r # -1 => e.r \in Range(e.m))
Able == {r \in Ranks : Ready(r)}
Init == pc = [r \in Ranks |-> 0]
Next == /\ Able # {}
        \* the operations that can happen are independent of each other: take any one
        /\ LET r == Min(Able) e == E(r)
               G == IF e.k \in P2P THEN {r, e.r} ELSE Range(e.m)
           IN pc' = [q \in Ranks |-> IF q \in G THEN pc[q] + 1 ELSE pc[q]]
Spec == Init /\ [][Next]_pc
Accepted == \A r \in Ranks : pc[r] = Len(Log[r])
Completes == Able # {} \/ Accepted \/
             ~PrintT("@" \o ToJson([at |-> [i \in 1..P |-> IF Has(i - 1) THEN E(i - 1) ELSE [k |-> "end"]], pc |-> [i \in 1..P |-> pc[i - 1]]]))
=============================================================================
