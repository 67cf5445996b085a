------------------------------ MODULE TeamProto ------------------------------
(***************************************************************************)
(* Trees on communicators: the processes 0..World-1 of a program form      *)
(* disjoint teams, each an ordered list of processes; every team builds,   *)
(* merges and splits a distributed tree of its own, in which its processes *)
(* are known by their places in the list.  All ways of forming teams, all  *)
(* small trees, all distributions, every interleaving.  What one team does *)
(* must involve none but its processes, none may wait for ever, and every  *)
(* team must end with what it would have got had it been alone.            *)
(* Defect plants the mistakes that are possible when a tree looks at all   *)
(* processes instead of those of its communicator:                         *)
(*   "range" the group of a node is taken from all processes               *)
(*   "rank"  a process takes its place in the program for that in the team *)
(*   "all"   a tree is begun by all processes together                     *)
(***************************************************************************)
EXTENDS Tree, TLC, Json
CONSTANTS World, MaxBranches, MaxTeams, Defect
VARIABLES teams, B, own, pc, prog, val
vars == <<teams, B, own, pc, prog, val>>

Procs == 0..(World - 1)
\* ordered lists of distinct processes
Lists(S) == UNION {{f \in [1..k -> S] : \A i, j \in 1..k : i # j => f[i] # f[j]} : k \in 1..Cardinality(S)}
Teams == UNION {{t \in [1..k -> Lists(Procs)] : \A i, j \in 1..k : i # j => Range(t[i]) \cap Range(t[j]) = {}} : k \in 1..MaxTeams}
Size(t) == Len(teams[t])
Members(t, p) == {teams[t][r + 1] : r \in HoldersOf(own[t], Size(t), p)}
\* the processes meant to share node p of team t
Group(t, p) == IF Defect = "range" THEN HoldersOf(own[t], Size(t), p) ELSE Members(t, p)
Shared(t, p) == Cardinality(HoldersOf(own[t], Size(t), p)) > 1
Place(t, i) == IF Defect = "rank" THEN teams[t][i] ELSE i - 1
Held(t, i) == IF Place(t, i) < Size(t) THEN HeldBy(own[t], Place(t, i)) ELSE {}

\* a step of a program: everyone in w has to be at the same one; work changes the value at a node
Meet(t, st, p, k) == [st |-> st, t |-> t, p |-> p, k |-> k, w |-> Group(t, p)]
Visit(t, st, p) == (IF Shared(t, p) /\ p \in B[t] THEN [k \in 1..2 |-> Meet(t, st, p, k)] ELSE <<>>) \o <<[st |-> st, t |-> t, p |-> p, k |-> 0, w |-> {}]>>
Program(t, i) ==
  LET held == TLCEval(Held(t, i)) pre == PreOrder(<<>>, held, {}) post == PostOrder(<<>>, held)
  IN (IF Defect = "all" THEN <<[st |-> 0, t |-> t, p |-> <<>>, k |-> 9, w |-> Procs]>> ELSE <<>>)
     \o FlattenSeq([j \in 1..Len(pre) |-> IF Shared(t, pre[j]) THEN <<Meet(t, 0, pre[j], 0)>> ELSE <<>>])
     \o FlattenSeq([j \in 1..Len(post) |-> Visit(t, 1, post[j])])
     \o FlattenSeq([j \in 1..Len(pre) |-> Visit(t, 2, pre[j])])

Trees == {S \in SUBSET ({<<>>} \cup [1..1 -> 0..3]) : Cardinality(S) <= MaxBranches /\ (S # {} => <<>> \in S)}
Cuts(n, k) == {c \in [0..k -> 0..n] : c[0] = 0 /\ c[k] = n /\ \A i \in 0..(k - 1) : c[i] < c[i + 1]}
Dist(S, k) == LET order == TLCEval(LeafOrder(S)) IN {[r \in 0..(k - 1) |-> SubSeq(order, c[r] + 1, c[r + 1])] : c \in Cuts(Len(order), k)}
At(w) == CHOOSE ti \in {<<t, i>> \in (1..Len(teams)) \X (1..World) : i <= Size(t) /\ teams[t][i] = w} : TRUE
InTeam == UNION {Range(teams[t]) : t \in 1..Len(teams)}
Init == /\ teams \in Teams
        /\ B \in [1..Len(teams) -> Trees]
        /\ own \in [1..Len(teams) -> UNION {Dist(S, k) : S \in Trees, k \in 1..World}]
        /\ \A t \in 1..Len(teams) : own[t] \in Dist(B[t], Size(t))
        /\ prog = [w \in Procs |-> IF w \in InTeam THEN Program(At(w)[1], At(w)[2]) ELSE <<>>]
        /\ pc = [w \in Procs |-> 1]
        /\ val = [w \in Procs |-> <<>>]

Done(w) == pc[w] > Len(prog[w])
Op(w) == prog[w][pc[w]]
\* all members of the group are at the same step: it happens
Happen(w) == LET o == Op(w) IN
  /\ o.w # {} /\ w \in o.w /\ \A q \in o.w : ~Done(q) /\ Op(q) = o
  /\ pc' = [q \in Procs |-> IF q \in o.w THEN pc[q] + 1 ELSE pc[q]]
  /\ UNCHANGED <<teams, B, own, prog, val>>
Work(w) == LET o == Op(w) IN
  /\ o.w = {}
  /\ val' = [val EXCEPT ![w] = Append(@, <<o.st, o.p>>)]
  /\ pc' = [pc EXCEPT ![w] = @ + 1]
  /\ UNCHANGED <<teams, B, own, prog>>
Finished == (\A w \in Procs : Done(w)) /\ UNCHANGED vars
Next == (\E w \in Procs : ~Done(w) /\ (Happen(w) \/ Work(w))) \/ Finished
Spec == Init /\ [][Next]_vars

\* (that nobody waits for ever is TLC's deadlock check)
Apart == \A w \in Procs : ~Done(w) => LET o == Op(w) IN o.w = {} \/ (w \in o.w /\ o.w = Members(o.t, o.p))
\* visits are those of the processes of a team alone
Alone == \A w \in Procs : Done(w) =>
  IF w \notin InTeam THEN val[w] = <<>>
  ELSE LET ti == At(w)
           held == HeldBy(own[ti[1]], ti[2] - 1)
           post == PostOrder(<<>>, held) pre == PreOrder(<<>>, held, {})
       IN val[w] = [j \in 1..Len(post) |-> <<1, post[j]>>] \o [j \in 1..Len(pre) |-> <<2, pre[j]>>]
Emit == (\A w \in Procs : pc[w] = 1) => PrintT("@" \o ToJson(teams))
=============================================================================
