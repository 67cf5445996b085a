---------------------------- MODULE TransferTrace ----------------------------
(***************************************************************************)
(* Recorded transfers between P processes.  Values are opaque (renderings  *)
(* made by the driver); a log line carries what every process then holds.  *)
(* a = arguments, L = lists, r[p] = observations of process p - 1.         *)
(***************************************************************************)
EXTENDS Transfer, TLC, TLCExt, Json
CONSTANT P
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, val, box, comms, wrong
vars == <<at, val, box, comms, wrong>>
World == [i \in 1..P |-> i - 1]
Init == at = 0 /\ val = <<>> /\ box = <<>> /\ comms = [c \in {0} |-> World] /\ wrong = {}
Procs == 1..P
Member(c, p) == \E i \in 1..Len(comms[c]) : comms[c][i] = p - 1
Proc(c, r) == comms[c][r + 1] + 1
Shown(e) == [p \in Procs |-> e.r[p].s]
Bad(ok, what) == IF ok THEN {} ELSE {what}
Next ==
  LET e == Log[at + 1] a == e.a IN
  /\ at < Len(Log) /\ wrong = {} /\ at' = at + 1
  /\ IF \E p \in Procs : e.r[p].threw = 1 THEN wrong' = {"stopped"} /\ UNCHANGED <<val, box, comms>>
     ELSE CASE e.op = "set" ->            \* slot: every process makes a value of its own
                 val' = With(val, a[1], Shown(e)) /\ UNCHANGED <<box, comms, wrong>>
            [] e.op = "show" -> /\ wrong' = Bad(Shown(e) = val[a[1]], "value") /\ UNCHANGED <<val, box, comms>>
            [] e.op = "send" ->           \* slot comm src dst tag
                 /\ wrong' = Bad(Shown(e) = val[a[1]], "value after sending")
                 /\ box' = Posted(box, <<a[2], a[3], a[4], a[5]>>, val[a[1]][Proc(a[2], a[3])])
                 /\ UNCHANGED <<val, comms>>
            [] e.op = "recv" ->
                 LET k == <<a[2], a[3], a[4], a[5]>> new == [val[a[1]] EXCEPT ![Proc(a[2], a[4])] = Head(Boxed(box, k))] IN
                 /\ wrong' = Bad(Shown(e) = new, "value received")
                 /\ val' = With(val, a[1], new) /\ box' = Taken(box, k) /\ UNCHANGED comms
            [] e.op = "bcast" ->          \* slot comm root
                 LET v == val[a[1]] new == [p \in Procs |-> IF Member(a[2], p) THEN v[Proc(a[2], a[3])] ELSE v[p]] IN
                 /\ wrong' = Bad(Shown(e) = new, "value broadcast") /\ val' = With(val, a[1], new) /\ UNCHANGED <<box, comms>>
            [] e.op = "gather" ->         \* comm kind disp.. | piece per process of the communicator.. | previous content
                 LET n == Len(comms[a[1]]) pieces == SubSeq(e.L, 1, n) new == Laid(e.L[n + 1], pieces, SubSeq(a, 3, 2 + n), n) IN
                 /\ wrong' = Bad(\A p \in Procs : Member(a[1], p) => e.r[p].got = new, "gathered values")
                         \cup Bad(\A i \in 1..n : e.r[Proc(a[1], i - 1)].own = pieces[i], "values after gathering")
                 /\ UNCHANGED <<val, box, comms>>
            [] e.op = "reduce" ->         \* comm kind op | piece per process..
                 LET n == Len(comms[a[1]]) pieces == SubSeq(e.L, 1, n) IN
                 /\ wrong' = Bad(\A p \in Procs : Member(a[1], p) => e.r[p].got = Reduced(a[3], pieces), "reduced values")
                         \cup Bad(\A i \in 1..n : e.r[Proc(a[1], i - 1)].own = pieces[i], "values after reducing")
                 /\ UNCHANGED <<val, box, comms>>
            [] e.op = "comm" ->           \* new super first last
                 LET new == SubSeq(comms[a[2]], a[3] + 1, a[4] + 1) IN
                 /\ comms' = With(comms, a[1], new)
                 /\ wrong' = Bad(\A p \in Procs : e.r[p].rank = (IF \E i \in 1..Len(new) : new[i] = p - 1 THEN CHOOSE i \in 0..(Len(new) - 1) : new[i + 1] = p - 1 ELSE -1), "ranks of a communicator")
                         \cup Bad(\A p \in Procs : e.r[p].rank # -1 => e.r[p].size = Len(new), "size of a communicator")
                 /\ UNCHANGED <<val, box>>
            [] OTHER ->                   \* name: comm | characters
                 /\ wrong' = Bad(\A p \in Procs : Member(a[1], p) => e.r[p].got = e.L[1], "name of a communicator")
                 /\ UNCHANGED <<val, box, comms>>
Spec == Init /\ [][Next]_vars
Conforms == wrong = {} \/ ~PrintT("@" \o ToJson([at |-> at, wrong |-> wrong]))
=============================================================================
