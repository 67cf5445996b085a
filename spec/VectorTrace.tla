----------------------------- MODULE VectorTrace -----------------------------
(* Lockstep validation: the specification executes every logged call; after   *)
(* each one the logged registers, outcome and returned value must be its own. *)
EXTENDS VectorADT, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, reg, last
Init == l = 0 /\ reg = [k \in 1..4 |-> <<>>] /\ last = [ok |-> TRUE, out |-> <<>>]
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET t == Trace[l + 1]
               e == IF t.op = "reset" THEN Yes([k \in 1..4 |-> <<>>], <<>>) ELSE Eval(t.op, t.a, t.L, reg)
           IN reg' = e.reg /\ last' = [ok |-> e.ok, out |-> e.out]
Conforms == l = 0 \/ LET t == Trace[l] IN t.ok = last.ok /\ t.reg = reg /\ (t.ok => t.out = last.out)
Spec == Init /\ [][Next]_<<l, reg, last>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
