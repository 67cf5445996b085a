----------------------------- MODULE InterpTrace -----------------------------
(* Recorded evaluations of interpolants. *)
EXTENDS Interp, TLC, TLCExt, Json
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, table, wrong
vars == <<at, table, wrong>>
Init == at = 0 /\ table = <<>> /\ wrong = {}
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Next ==
  LET e == Log[at + 1] IN
  /\ at < Len(Log) /\ wrong = {} /\ at' = at + 1
  /\ IF e.threw = 1 THEN wrong' = {"stopped"} /\ UNCHANGED table
     ELSE CASE e.op = "inew" -> table' = Put(table, e.a[1], [x |-> e.L[1], y |-> e.L[2]]) /\ UNCHANGED wrong
            [] OTHER -> LET T == table[e.a[1]] IN              \* one or many points
                 /\ wrong' = (IF e.got = [i \in 1..Len(e.L[1]) |-> At(T.x, T.y, e.L[1][i])] THEN {} ELSE {"values"}) /\ UNCHANGED table
Spec == Init /\ [][Next]_vars
Conforms == wrong = {} \/ ~PrintT("@" \o ToJson([at |-> at, wrong |-> wrong]))
=============================================================================
