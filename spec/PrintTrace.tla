----------------------------- MODULE PrintTrace -----------------------------
(* What the library prints.  State: the options set and the timers added so far.  Each line of the log is a call on process p with
   its numbers a, lists L, texts s (the characters of L) and the text out that appeared on this process's output (or stream). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, opts, timers, wrong
vars == <<at, opts, timers, wrong>>
NL == "\n"
Str(n) == ToString(n)
RECURSIVE Join(_), Digits(_), Before(_, _), InOrder(_)
Join(q) == IF q = <<>> THEN "" ELSE Head(q) \o Join(Tail(q))
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
Spaces == "                    "
Pad(t, w) == IF Len(t) >= w THEN t ELSE SubSeq(Spaces, 1, w - Len(t)) \o t
Abs(n) == IF n < 0 THEN -n ELSE n
Sign(n) == IF n < 0 THEN "-" ELSE ""
Fraction(n, f) == f[(Abs(n) % 4) + 1]
(* k quarters, as short as possible and with a fixed number of decimals *)
Short(k) == Sign(k) \o Str(Abs(k) \div 4) \o Fraction(k, <<"", ".25", ".5", ".75">>)
Two(k) == Sign(k) \o Str(Abs(k) \div 4) \o Fraction(k, <<".00", ".25", ".50", ".75">>)
Six(k) == Sign(k) \o Str(Abs(k) \div 4) \o Fraction(k, <<".000000", ".250000", ".500000", ".750000">>)
(* names in order of their characters *)
Before(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Before(Tail(a), Tail(b))
InOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : Before(x[1], y[1]) IN <<x>> \o InOrder(S \ {x})
Message(e) ==
    CASE e.a[1] = 0 -> e.s[1]
      [] e.a[1] = 1 -> e.s[1] \o Str(e.a[2]) \o ", " \o Str(e.a[3])
      [] e.a[1] = 2 -> e.s[1] \o " " \o e.s[2] \o "."
      [] e.a[1] = 3 -> e.s[2] \o Pad(Two(e.a[2]), 5) \o "%" \o e.s[1]
      [] OTHER -> Str(e.a[2]) \o "x" \o e.s[2] \o e.s[1]
Value(e) == CASE e.a[1] = 0 -> IF e.a[2] # 0 THEN "1" ELSE "0" [] e.a[1] = 1 -> Str(e.a[2]) [] e.a[1] = 2 -> Short(e.a[2]) [] OTHER -> e.s[2]
Listing == LET q == InOrder(opts) IN Join([k \in DOMAIN q |-> "[EllipticForest]   " \o q[k][2] \o " : " \o q[k][3] \o NL])
Entry(e, k) == Pad(IF e.a[1] = 0 THEN Str(k) ELSE Short(k), 12)
Vec(e) == LET n == Len(e.L[1]) IN "  [" \o Str(n) \o "]" \o NL \o Join([k \in 1..n |-> Entry(e, e.L[1][k]) \o IF k % 8 = 0 THEN NL ELSE ""])
Mat(e) == LET m == e.a[2] n == e.a[3] IN "  [" \o Str(m) \o " x " \o Str(n) \o "]  " \o NL
          \o Join([i \in 1..m |-> Join([j \in 1..n |-> Entry(e, e.L[1][(i - 1) * n + j])]) \o NL])
PatchText(e) ==
    LET a == e.a M == e.L[1] V == e.L[2]
        Shape(t, k) == "  " \o t \o " = [" \o Str(M[2 * k - 1]) \o ", " \o Str(M[2 * k]) \o "]" \o NL
        Length(t, k) == "  " \o t \o " = [" \o Str(V[k]) \o "]" \o NL
    IN "n_coarsens = " \o Str(a[7]) \o NL \o "grid:" \o NL \o "  nx = " \o Str(a[1]) \o NL \o "  ny = " \o Str(a[2]) \o NL
       \o "  x_lower = " \o Six(a[3]) \o NL \o "  x_upper = " \o Six(a[4]) \o NL \o "  y_lower = " \o Six(a[5]) \o NL \o "  y_upper = " \o Six(a[6]) \o NL
       \o "data:" \o NL \o Shape("X", 1) \o Shape("S", 2) \o Shape("T", 3)
       \o Length("u", 1) \o Length("g", 2) \o Length("v", 3) \o Length("f", 4) \o Length("h", 5) \o Length("w", 6)
       \o "bytes " \o Str(17 + 8 * (M[1] * M[2] + M[3] * M[4] + M[5] * M[6] + M[7] * M[8] + V[1] + V[2] + V[3] + V[4] + V[5] + V[6])) \o NL
Times == LET q == InOrder(timers) IN Join([k \in DOMAIN q |-> "[EllipticForest]   " \o q[k][2] \o " : T [sec]" \o NL])
(* the times in the last listing are replaced by T before *)
Ending == "[EllipticForest] End of app life cycle, finalizing..." \o NL \o "[EllipticForest] Timers: " \o NL
          \o Times \o "[EllipticForest] Done!" \o NL
Expected(e) ==
    CASE e.op = "begin" -> IF e.p = 0 THEN "[EllipticForest] Welcome to EllipticForest!" \o NL ELSE ""
      [] e.op = "log" -> "[EllipticForest " \o Str(e.p) \o "] " \o Message(e) \o NL
      [] e.op = "head" -> IF e.p = 0 THEN "[EllipticForest 0] " \o Message(e) \o NL ELSE ""
      [] e.op \in {"set", "timer"} -> ""
      [] e.op \in {"options", "copied"} -> Listing
      [] e.op = "vec" -> Vec(e)
      [] e.op = "mat" -> Mat(e)
      [] e.op = "node" -> "node: path = " \o e.s[1] \o ", level = " \o Str(e.a[1]) \o ", ranks = [" \o Str(e.a[2]) \o "-" \o Str(e.a[3]) \o "]" \o NL
      [] e.op = "patch" -> PatchText(e)
      [] e.op = "end" -> IF e.p = 0 THEN Ending ELSE ""
Key(e) == <<e.L[1], e.s[1]>>
Life == <<<<97, 112, 112, 45, 108, 105, 102, 101, 116, 105, 109, 101>>, "app-lifetime">>
Init == at = 0 /\ opts = {} /\ timers = {} /\ wrong = <<>>
Next == /\ at < Len(Log) /\ wrong = <<>> /\ at' = at + 1
        /\ LET e == Log[at + 1] x == TLCEval(Expected(e)) IN
             /\ wrong' = IF e.out = x THEN <<>> ELSE <<[at |-> at + 1, expected |-> x, said |-> e.out]>>
             /\ opts' = CASE e.op = "begin" -> {}
                          [] e.op = "set" -> {o \in opts : o[1] # e.L[1]} \cup {<<e.L[1], e.s[1], Value(e)>>}
                          [] OTHER -> opts
             /\ timers' = CASE e.op = "begin" -> {Life} [] e.op = "timer" -> timers \cup {Key(e)} [] OTHER -> timers
Spec == Init /\ [][Next]_vars
Report == IF at = Len(Log) \/ wrong # <<>> THEN PrintT("@" \o ToJson([at |-> at, wrong |-> wrong])) ELSE TRUE
=============================================================================
