----------------------------- MODULE MatrixTrace -----------------------------
(* Lockstep validation of executions of the real Matrix class.                *)
EXTENDS MatrixADT, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, reg, last
Blank == [k \in 1..4 |-> Empty]
Init == l = 0 /\ reg = Blank /\ last = [ok |-> TRUE, out |-> <<>>]
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET t == Trace[l + 1]
               e == IF t.op = "reset" THEN Yes(Blank, <<>>) ELSE Eval(t.op, t.a, t.L, reg, t.out)
           IN reg' = e.reg /\ last' = [ok |-> e.ok, out |-> e.out]
Conforms == l = 0 \/ LET t == Trace[l] IN t.ok = last.ok /\ t.reg = reg /\ (t.ok => t.out = last.out)
Spec == Init /\ [][Next]_<<l, reg, last>>
=============================================================================
