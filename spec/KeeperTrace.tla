----------------------------- MODULE KeeperTrace -----------------------------
(***************************************************************************)
(* Keyed caches, timers and the application object.                        *)
(* Time is virtual: it passes only in "tick" calls, in 1/512 s.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, cache, refs, now, timer, wrong
vars == <<at, cache, refs, now, timer, wrong>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Zero == [sum |-> 0, begun |-> 0]
Init == at = 0 /\ cache = <<>> /\ refs = <<>> /\ now = 0 /\ timer = (0 :> Zero)     \* timer 0: the application's own, running from its start
        /\ wrong = {}
Bad(ok, what) == IF ok THEN {} ELSE {what}
Next ==
  LET e == Log[at + 1] a == e.a IN
  /\ at < Len(Log) /\ wrong = {} /\ at' = at + 1
  /\ IF e.threw = 1 THEN wrong' = {"stopped"} /\ UNCHANGED <<cache, refs, now, timer>>
     ELSE CASE
          \* caches: id; keys are lists of codes, values lists of integers
             e.op = "cnew" -> /\ cache' = Put(cache, a[1], IF Len(e.L) = 0 THEN <<>> ELSE [k \in {e.L[2 * i - 1] : i \in 1..(Len(e.L) \div 2)} |->
                                             e.L[2 * (CHOOSE i \in 1..(Len(e.L) \div 2) : e.L[2 * i - 1] = k /\ \A j \in 1..(Len(e.L) \div 2) : e.L[2 * j - 1] = k => j <= i)]])
                              /\ UNCHANGED <<refs, now, timer, wrong>>
            [] e.op = "ccopy" -> cache' = Put(cache, a[1], cache[a[2]]) /\ UNCHANGED <<refs, now, timer, wrong>>
            [] e.op = "cput" -> cache' = [cache EXCEPT ![a[1]] = Put(@, e.L[1], e.L[2])] /\ UNCHANGED <<refs, now, timer, wrong>>
            [] e.op = "chas" -> /\ wrong' = Bad(e.got = (IF e.L[1] \in DOMAIN cache[a[1]] THEN 1 ELSE 0), "presence") /\ UNCHANGED <<cache, refs, now, timer>>
            [] e.op = "cget" ->         \* reading under a new key stores an empty value there
                 LET v == IF e.L[1] \in DOMAIN cache[a[1]] THEN cache[a[1]][e.L[1]] ELSE <<>> IN
                 /\ wrong' = Bad(e.val = v, "stored value") /\ cache' = [cache EXCEPT ![a[1]] = Put(@, e.L[1], v)] /\ UNCHANGED <<refs, now, timer>>
            [] e.op = "cref" ->         \* keep a reference to a stored value ..
                 LET v == IF e.L[1] \in DOMAIN cache[a[1]] THEN cache[a[1]][e.L[1]] ELSE <<>> IN
                 /\ refs' = Put(refs, a[2], <<a[1], e.L[1]>>) /\ cache' = [cache EXCEPT ![a[1]] = Put(@, e.L[1], v)] /\ UNCHANGED <<now, timer, wrong>>
            [] e.op = "cwrite" ->       \* .. and write through it later
                 LET r == refs[a[1]] IN cache' = [cache EXCEPT ![r[1]] = Put(@, r[2], e.L[1])] /\ UNCHANGED <<refs, now, timer, wrong>>
          \* timers: id
            [] e.op = "tick" -> now' = now + a[1] /\ UNCHANGED <<cache, refs, timer, wrong>>
            [] e.op = "tadd" -> timer' = Put(timer, a[1], Zero) /\ UNCHANGED <<cache, refs, now, wrong>>
            [] e.op = "tcopy" -> timer' = Put(timer, a[1], timer[a[2]]) /\ UNCHANGED <<cache, refs, now, wrong>>
            [] e.op = "start" -> timer' = [timer EXCEPT ![a[1]].begun = now] /\ UNCHANGED <<cache, refs, now, wrong>>
            [] e.op = "stop" ->
                 LET d == now - timer[a[1]].begun IN
                 /\ wrong' = Bad(e.time = d, "duration") /\ timer' = [timer EXCEPT ![a[1]].sum = @ + d] /\ UNCHANGED <<cache, refs, now>>
            [] e.op = "time" -> /\ wrong' = Bad(\A i \in 1..Len(e.times) : e.times[i][1] \in DOMAIN timer => e.times[i][2] = timer[e.times[i][1]].sum, "accumulated time")
                                           \cup Bad(DOMAIN timer \subseteq {e.times[i][1] : i \in 1..Len(e.times)}, "timers")
                                /\ UNCHANGED <<cache, refs, now, timer>>
            [] e.op = "restart" -> timer' = [timer EXCEPT ![a[1]].sum = 0] /\ UNCHANGED <<cache, refs, now, wrong>>
          \* the application object; single objects made on demand by a[1] threads at once
            [] e.op = "app" -> /\ wrong' = Bad(e.same = 1, "application object") /\ UNCHANGED <<cache, refs, now, timer>>
            [] e.op = "single" -> /\ wrong' = Bad(e.made = 1, "objects made") \cup Bad(e.same = 1, "objects handed out") /\ UNCHANGED <<cache, refs, now, timer>>
Spec == Init /\ [][Next]_vars
Conforms == wrong = {} \/ ~PrintT("@" \o ToJson([at |-> at, wrong |-> wrong]))
=============================================================================
