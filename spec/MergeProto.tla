----------------------------- MODULE MergeProto ------------------------------
(***************************************************************************)
(* Building a distributed tree, merging it and splitting it, as every      *)
(* process executes it: the communicator of each node is created by its    *)
(* holders in pre-order; a merge visits the nodes a process holds in post- *)
(* order, a split in pre-order; at a branch held by several processes each *)
(* child is agreed on (all-reduce of the highest holder) and broadcast by  *)
(* that holder before the family is visited.                               *)
(* All trees reachable by refinement and all distributions are explored    *)
(* under every interleaving.  A broadcast's root may run ahead; the other  *)
(* collectives wait for all members.                                       *)
(***************************************************************************)
EXTENDS Tree, TLC
CONSTANTS MaxLevel, MaxBranches, Procs, Defect   \* Defect # "none" plants a protocol error (the checks must find it)
VARIABLES
  B, own,      \* the tree and who owns which leaves
  pc,          \* next operation of each process in its program
  posted,      \* collective instance -> set of processes that have arrived
  agreed,      \* all-reduce instance -> contributions so far
  sent,        \* broadcast instance -> <<root, value>> once the root has arrived
  val,         \* process -> node -> value it has (leaf and family visits change it)
  seen         \* process -> log of what family visits were shown: <<stage, node, children's values>>
vars == <<B, own, pc, posted, agreed, sent, val, seen>>

Ranks == 0..(Procs - 1)
N == NodesOf(B)
H(p) == HoldersOf(own, Procs, p)
Shared(p) == Cardinality(H(p)) > 1

FamilyOps(st, p) ==
  (IF Shared(p) THEN FlattenSeq([i \in 1..4 |-> <<[k |-> "reduce", st |-> st, p |-> p, i |-> i - 1], [k |-> "bcast", st |-> st, p |-> p, i |-> i - 1]>>]) ELSE <<>>)
  \o <<[k |-> "family", st |-> st, p |-> p, i |-> 0]>>
VisitOps(st, p) == IF p \in B THEN FamilyOps(st, p) ELSE <<[k |-> "leaf", st |-> st, p |-> p, i |-> 0]>>
Swap(s, r) == IF Defect = "order" /\ r = 0 THEN Reverse(s) ELSE s
Program(r) == LET held == HeldBy(own, r)
                  pre == PreOrder(<<>>, held, {})
                  post == PostOrder(<<>>, held)
              IN FlattenSeq([j \in 1..Len(pre) |-> <<[k |-> "create", st |-> 0, p |-> pre[j], i |-> 0]>>])
                 \o FlattenSeq([j \in 1..Len(post) |-> VisitOps(1, Swap(post, r)[j])])
                 \o FlattenSeq([j \in 1..Len(pre) |-> VisitOps(2, pre[j])])
                 \o FlattenSeq([j \in 1..Len(post) |-> VisitOps(3, post[j])])

VARIABLE prog
allvars == <<vars, prog>>

Trees == {S \in SUBSET (UNION {[1..k -> 0..3] : k \in 0..(MaxLevel - 1)}) : Cardinality(S) <= MaxBranches /\ (\A p \in S : p # <<>> => Front(p) \in S)}
Init == /\ B \in Trees
        /\ LET order == TLCEval(LeafOrder(B)) n == Len(order) IN
             /\ n >= Procs
             /\ \E c \in {f \in [0..Procs -> 0..n] : f[0] = 0 /\ f[Procs] = n /\ \A i \in 0..(Procs - 1) : f[i] < f[i + 1]} :
                  own = [r \in Ranks |-> SubSeq(order, c[r] + 1, c[r + 1])]
        /\ pc = [r \in Ranks |-> 1]
        /\ posted = <<>> /\ agreed = <<>> /\ sent = <<>>
        /\ val = [r \in Ranks |-> [p \in HeldBy(own, r) |-> 0]]
        /\ seen = [r \in Ranks |-> <<>>]
        /\ prog = [r \in Ranks |-> Program(r)]

Done(r) == pc[r] > Len(prog[r])
Op(r) == prog[r][pc[r]]
Inst(o) == <<o.k, o.st, o.p, o.i>>
Advance(r) == pc' = [pc EXCEPT ![r] = @ + 1]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Child(o) == Append(o.p, o.i)
\* arrive at a collective (create, reduce): contribute; leave when all holders have arrived
Arrive(r) == LET o == Op(r) IN
  /\ o.k \in {"create", "reduce"}
  /\ r \notin Get(posted, Inst(o), {})
  /\ posted' = Put(posted, Inst(o), Get(posted, Inst(o), {}) \cup {r})
  /\ agreed' = IF o.k = "reduce" THEN Put(agreed, Inst(o), Get(agreed, Inst(o), {}) \cup {IF Child(o) \in DOMAIN val[r] THEN r ELSE Min(H(o.p))}) ELSE agreed
  /\ UNCHANGED <<B, own, pc, sent, val, seen, prog>>
Leave(r) == LET o == Op(r) IN
  /\ o.k \in {"create", "reduce"}
  /\ Get(posted, Inst(o), {}) = H(o.p)
  /\ Advance(r)
  /\ UNCHANGED <<B, own, posted, agreed, sent, val, seen, prog>>
RootOf(o) == IF Defect = "root" THEN Min(H(o.p)) ELSE Max(agreed[<<"reduce", o.st, o.p, o.i>>])
Bcast(r) == LET o == Op(r) root == RootOf(o) IN
  /\ o.k = "bcast"
  /\ IF r = root
     THEN sent' = Put(sent, Inst(o), IF Child(o) \in DOMAIN val[r] THEN val[r][Child(o)] ELSE -1) /\ UNCHANGED val
     ELSE /\ Inst(o) \in DOMAIN sent
          /\ UNCHANGED sent
          /\ val' = IF Child(o) \in DOMAIN val[r] THEN [val EXCEPT ![r][Child(o)] = sent[Inst(o)]] ELSE val
  /\ Advance(r)
  /\ UNCHANGED <<B, own, posted, agreed, seen, prog>>
Work(v, st) == (2 * v + st) % 7
Leaf(r) == LET o == Op(r) IN
  /\ o.k = "leaf"
  /\ val' = [val EXCEPT ![r][o.p] = Work(@, o.st) + Len(o.p)]
  /\ Advance(r) /\ UNCHANGED <<B, own, posted, agreed, sent, seen, prog>>
Kid(r, o, i) == IF Shared(o.p) THEN sent[<<"bcast", o.st, o.p, i>>] ELSE val[r][Append(o.p, i)]
Family(r) == LET o == Op(r)
                 ks == [i \in 0..3 |-> Kid(r, o, i)]
                 b == Work(val[r][o.p] + ks[0] + 2 * ks[1] + 3 * ks[2] + 4 * ks[3], o.st)
             IN
  /\ o.k = "family"
  /\ seen' = [seen EXCEPT ![r] = Append(@, <<o.st, o.p, ks>>)]
  /\ val' = [val EXCEPT ![r] = [q \in DOMAIN @ |-> IF q = o.p THEN b ELSE IF Len(q) > 0 /\ Front(q) = o.p THEN Work(ks[Last(q)] + b, o.st) ELSE @[q]]]
  /\ Advance(r) /\ UNCHANGED <<B, own, posted, agreed, sent, prog>>
Step(r) == ~Done(r) /\ (Arrive(r) \/ Leave(r) \/ Bcast(r) \/ Leaf(r) \/ Family(r))
Finished == (\A r \in Ranks : Done(r)) /\ UNCHANGED allvars
Next == (\E r \in Ranks : Step(r)) \/ Finished
Spec == Init /\ [][Next]_allvars

\* ---- properties
\* (deadlock freedom is TLC's deadlock check: every non-final state has a successor)
\* a broadcast root holds what it sends
RootHolds == \A x \in DOMAIN sent : sent[x] # -1
\* processes at the same place of a communicator's operation sequence agree on the operation: per node, the order is the program's
OnNode(r, p) == SelectSeq(prog[r], LAMBDA o : o.p = p /\ o.k \in {"create", "reduce", "bcast"})
Matched == \A p \in N : Shared(p) => \A r, s \in H(p) : OnNode(r, p) = OnNode(s, p)
\* whoever has executed the same visits holds the same data, and was shown the same
Coherent == /\ (\A r \in Ranks : Done(r)) =>
               \A r, s \in Ranks : \A p \in DOMAIN val[r] \cap DOMAIN val[s] : val[r][p] = val[s][p]
            /\ \A r, s \in Ranks : \A i \in 1..Len(seen[r]), j \in 1..Len(seen[s]) :
                 seen[r][i][1] = seen[s][j][1] /\ seen[r][i][2] = seen[s][j][2] => seen[r][i][3] = seen[s][j][3]
\* a merge shows a branch its children after their own visits of that stage; a split before them
Reach == \A r \in Ranks : pc[r] <= Len(prog[r]) + 1
=============================================================================
