------------------------------ MODULE HpsTrace -------------------------------
(***************************************************************************)
(* Validation of executions of the real HPS stages on P processes.  The    *)
(* state is what a user may rely on: the mesh, the coefficients, what was  *)
(* built, the most recent load, the options.  A solve is accepted only if  *)
(* the leaves of all processes together carry the solution determined by   *)
(* that state and by the boundary data given (module HPS) - nothing about  *)
(* earlier solves, loads or options is part of the state.                  *)
(***************************************************************************)
EXTENDS HPS, TLCExt, Json
CONSTANTS P
Ranks == 0..(P - 1)
Log == TLCEval([r \in Ranks |-> ndJsonDeserialize("log." \o ToString(r))])
VARIABLES at, prob, opts, wrong
vars == <<at, prob, opts, wrong>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Ev(k) == Log[0][k]
Init == at = 0 /\ prob = <<>> /\ opts = [cache |-> FALSE, zero |-> FALSE] /\ wrong = {}

\* every process makes the same calls; the results of call k follow it: an "own" or "sol" or "ops" event (or none), then "end"
Reply(r, k) == Log[r][k]
Reached(k) == \A r \in Ranks : k <= Len(Log[r])
Owns(k) == [r \in Ranks |-> Reply(r, k).leaves]
BranchesOf(own) == UNION {UNION {Ancestors(own[r][i]) : i \in 1..Len(own[r])} : r \in Ranks}

Coefs(Q) == <<Q.alpha, Q.beta, Q.lambda, Q.type>>
Constant(Q) == Q.alpha[1] = 0 /\ Q.beta[1] = 0 /\ Q.lambda[1] = 0
\* FISHPACK solves div grad u + lambda u = f with lambda = lambda(0, 0)
Effective(Q) == IF Q.type = 1 THEN [Q EXCEPT !.alpha = <<0, 1, 0, 0, 0, 1>>, !.beta = <<0, 1, 0, 0, 0, 1>>, !.lambda = <<0, Eval(Q.lambda, 0, 0), 0, 0, 0, 1>>] ELSE Q
\* with a zeroth-order term of this sign the operator may be nearly singular
Positive(Q) == Q.lambda[1] + Q.lambda[6] - 1 > 0
One == <<0, 1, 0, 0, 0, 1>>

Step ==
  LET k == at + 1
      c == Ev(k)
      a == c.a
      Advance(n) == at' = at + n
      ended(n) == \A r \in Ranks : at + n <= Len(Log[r]) /\ Log[r][at + n].ev = "end"
      Ok(n, w) == wrong' = (w \cup (IF ended(n) THEN {} ELSE {"stopped"})) /\ Advance(n)
  IN
  /\ wrong = {} /\ at < Len(Log[0]) /\ c.ev = "call"
  /\ \A r \in Ranks : Reached(k) /\ Reply(r, k) = c
  /\ CASE c.op \in {"mesh", "refine"} ->
          IF ~Reached(k + 1) \/ \E r \in Ranks : Reply(r, k + 1).ev # "own" THEN wrong' = {"stopped"} /\ UNCHANGED <<at, prob, opts>>
          ELSE LET own == Owns(k + 1)
                   B == BranchesOf(own)
                   isnew == c.op = "mesh" \/ a[1] \notin DOMAIN prob
                   old == IF isnew THEN [alpha |-> One, beta |-> One, lambda |-> Zero, type |-> 0] ELSE prob[a[1]]
               IN /\ prob' = Put(prob, a[1], [nx |-> a[2], hx |-> a[5], hy |-> a[6], lev |-> a[7], B |-> B, own |-> own, alpha |-> old.alpha, beta |-> old.beta,
                                              lambda |-> old.lambda, type |-> old.type, built |-> <<>>, load |-> <<>>])
                  /\ Ok(3, (IF Distributes(own, P, B) THEN {} ELSE {"mesh"}) \cup (IF c.op = "mesh" /\ B # {c.L[i] : i \in 2..Len(c.L)} THEN {"mesh"} ELSE {}))
                  /\ UNCHANGED opts
       [] c.op = "coef" -> /\ prob' = [prob EXCEPT ![a[1]] = CASE a[2] = 0 -> [@ EXCEPT !.alpha = c.L[1]] [] a[2] = 1 -> [@ EXCEPT !.beta = c.L[1]] [] OTHER -> [@ EXCEPT !.lambda = c.L[1]]]
                           /\ Ok(2, {}) /\ UNCHANGED opts
       [] c.op = "type" -> prob' = [prob EXCEPT ![a[1]].type = a[2]] /\ Ok(2, {}) /\ UNCHANGED opts
       [] c.op = "opt" -> opts' = (IF a[1] = 0 THEN [opts EXCEPT !.cache = (a[2] = 1)] ELSE [opts EXCEPT !.zero = (a[2] = 1)]) /\ Ok(2, {}) /\ UNCHANGED prob
       [] c.op = "setup" -> Ok(2, {}) /\ UNCHANGED <<prob, opts>>
       [] c.op = "build" -> /\ prob' = [prob EXCEPT ![a[1]].built = Coefs(prob[a[1]]), ![a[1]].load = <<>>]
                            /\ Ok(2, IF opts.cache => Constant(prob[a[1]]) THEN {} ELSE {"script"}) /\ UNCHANGED opts
       [] c.op = "up" -> /\ prob' = [prob EXCEPT ![a[1]].load = IF opts.zero THEN <<>> ELSE c.L[1]]
                         /\ Ok(2, IF prob[a[1]].built = Coefs(prob[a[1]]) /\ (opts.zero => c.L[1][1] = 0 /\ c.L[1][2] = 0) THEN {} ELSE {"script"})
                         /\ UNCHANGED opts
       [] c.op = "solve" ->
          IF ~Reached(k + 1) \/ \E r \in Ranks : Reply(r, k + 1).ev # "sol" THEN wrong' = {"stopped"} /\ UNCHANGED <<at, prob, opts>>
          ELSE LET Q == Effective(prob[a[1]])
                   S == Reply(0, k + 1).S
                   all == TLCEval(FlattenSeq([i \in 1..P |-> Reply(i - 1, k + 1).leaves]))
                   D == TLCEval([p \in {all[i].p : i \in 1..Len(all)} |-> LET i == CHOOSE j \in 1..Len(all) : all[j].p = p IN [u |-> all[i].u, g |-> all[i].g, f |-> all[i].f]])
                   load == IF opts.zero THEN Zero ELSE prob[a[1]].load
                   bc == IF a[2] = 1 THEN [direct |-> FALSE, a |-> SubSeq(c.L, 1, 4), b |-> SubSeq(c.L, 5, 8), r |-> SubSeq(c.L, 9, 12)]
                         ELSE [direct |-> TRUE, r |-> c.L]
                   legal == /\ prob[a[1]].built = Coefs(prob[a[1]]) /\ load # <<>>
               IN /\ Ok(3, IF ~legal THEN {"script"}
                           ELSE IF S < 100 THEN (IF Positive(Q) THEN {} ELSE {"resolution"})
                           ELSE IF [i \in 1..P |-> [j \in 1..Len(Reply(i - 1, k + 1).leaves) |-> Reply(i - 1, k + 1).leaves[j].p]] # [i \in 1..P |-> prob[a[1]].own[i - 1]]
                           THEN {"mesh"}
                           ELSE Wrong(Q, S, D, load, bc)
                                \cup (IF \E r \in Ranks : Reply(r, k + 1).off # 0 THEN {"points"} ELSE {})
                                \cup (IF LoadHolds(Q, D, load) THEN {} ELSE {"load"}))
                  \* a solve declared free of load overwrites it
                  /\ prob' = IF opts.zero THEN [prob EXCEPT ![a[1]].load = <<>>] ELSE prob
                  /\ UNCHANGED opts
       [] c.op = "ops" -> Ok(3, {}) /\ UNCHANGED <<prob, opts>>
       [] OTHER -> FALSE
Done == /\ wrong = {} /\ \A r \in Ranks : at = Len(Log[r]) - 1 /\ Log[r][at + 1].ev = "done"
        /\ at' = at + 1 /\ UNCHANGED <<prob, opts, wrong>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Finished == \A r \in Ranks : at = Len(Log[r])
Conforms == wrong = {} \/ ~PrintT("@" \o ToJson([at |-> at, wrong |-> wrong]))
=============================================================================
