------------------------------ MODULE TreeTrace ------------------------------
(***************************************************************************)
(* Validation of executions of the real Quadtree on P processes.  Each     *)
(* process's log is a sequence of events; the specification keeps, per     *)
(* tree, the nodes each process holds and the value of every node's data,  *)
(* and takes the processes' next events: visits of a branch held by        *)
(* several processes happen together (its children are exchanged first),   *)
(* everything else process by process.  An event is consumed only if it is *)
(* what the specification allows; the log is accepted when all of it is    *)
(* consumed.  Steps of different processes commute (a data item is written *)
(* only by the visits of its node and of its parent, which are ordered),   *)
(* so following one order of the processes is enough.                      *)
(***************************************************************************)
EXTENDS Tree, TLC, TLCExt, Json
CONSTANTS P, Focus    \* Focus: which part of a dumped tree is judged ("C07": shape and rectangles, "C08": holders, "all")
Log == TLCEval([r \in 0..(P - 1) |-> ndJsonDeserialize("log." \o ToString(r))])
Ranks == 0..(P - 1)

VARIABLES
  pc,       \* events consumed, per process
  forest,   \* forest id -> branches, leaves of each process, and what follows from them
  tree,     \* tree id -> [f: forest, s: store]
  val,      \* store -> node -> value of its data
  todo,     \* per process: the nodes the running call still has to visit (a sequence for traversals, a set for merge and split)
  run       \* per process: the running call
vars == <<pc, forest, tree, val, todo, run>>

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Idle == [op |-> "idle"]

Init == /\ pc = [r \in Ranks |-> 0] /\ forest = <<>> /\ tree = <<>> /\ val = <<>>
        /\ todo = [r \in Ranks |-> <<>>] /\ run = [r \in Ranks |-> Idle]

Ev(r) == Log[r][pc[r] + 1]
HasEv(r) == pc[r] < Len(Log[r])
Is(r, e) == HasEv(r) /\ Ev(r).ev = e
FollowedBy(r, e) == pc[r] + 2 <= Len(Log[r]) /\ Log[r][pc[r] + 2].ev = e
Busy(r, ops) == run[r].op \in ops

Traversals == {"pre", "post", "predata", "postdata"}
Families == {"merge", "split"}
Together == {"forest", "tree", "newtree", "fvtree", "movetree", "repeat"}   \* calls made by all processes at once

Branches(c) == {c.L[i] : i \in 2..Len(c.L)}
TreeKey(c) == <<c.op \in {"fvdump", "fvtree"}, c.a[1]>>
ForestOf(c) == forest[tree[TreeKey(c)].f]
HeldIn(c, r) == ForestOf(c).held[r]
\* a call may ask its visitors to run a traversal themselves: its last two arguments are then the tree and the kind of that
\* traversal, and its list names the nodes at which it is run
Nested(c) == (c.op \in Traversals /\ Len(c.a) = 3) \/ (c.op \in Families /\ Len(c.a) = 4)
PruneOf(c) == IF Nested(c) THEN {} ELSE {c.L[i] : i \in 1..Len(c.L)}
InnerOf(c, r, p) ==
  IF ~Nested(c) \/ \A i \in 1..Len(c.L) : c.L[i] # p THEN <<>>
  ELSE LET N == forest[tree[<<FALSE, c.a[Len(c.a) - 1]>>].f].held[r] IN
       <<IF c.a[Len(c.a)] \in {0, 2} THEN PreOrder(<<>>, N, {}) ELSE PostOrder(<<>>, N)>>
InnerAgrees(r) == LET e == Ev(r) IN InnerOf(run[r], r, e.p) = (IF "in" \in DOMAIN e THEN <<e.in>> ELSE <<>>)
Plan(c, r) ==
  LET N == HeldIn(c, r) IN
    CASE c.op = "pre" -> PreOrder(<<>>, N, PruneOf(c))
      [] c.op = "predata" -> PreOrder(<<>>, N, {})
      [] c.op \in {"post", "postdata"} -> PostOrder(<<>>, N)
      [] c.op = "merge" -> N
      \* a family visitor that returns 0 ends the descent below its branch
      [] c.op = "split" -> {p \in N : \A q \in PruneOf(c) : ~(IsStrictPrefix(q, p))}
      [] OTHER -> {}
Over(r) == IF Busy(r, Traversals) THEN todo[r] = <<>> ELSE todo[r] = {}

Fresh(B) == [p \in NodesOf(B) |-> 0]
CanBegin(r) ==
  /\ Is(r, "call") /\ run[r] = Idle
  /\ Ev(r).op \in Together => \A q \in Ranks : Is(q, "call") /\ Ev(q) = Ev(r) /\ run[q] = Idle /\ (Ev(q).op = "forest" => FollowedBy(q, "own"))
  \* the distribution is what the forest itself reports; it must be one
  /\ Ev(r).op = "forest" => Distributes([q \in Ranks |-> Log[q][pc[q] + 2].leaves], P, Branches(Ev(r)))
Begin(r) ==
  LET c == Ev(r) IN
     CASE c.op = "forest" ->
            /\ LET own == [q \in Ranks |-> Log[q][pc[q] + 2].leaves]
                   B == Branches(c)
               IN forest' = Put(forest, c.a[1], [B |-> B, own |-> own, held |-> [q \in Ranks |-> HeldBy(own, q)],
                                                 holders |-> [n \in NodesOf(B) |-> HoldersOf(own, P, n)]])
            /\ pc' = [q \in Ranks |-> pc[q] + 2] /\ run' = [q \in Ranks |-> c] /\ todo' = [q \in Ranks |-> {}]
            /\ UNCHANGED <<tree, val>>
       [] c.op \in Together \ {"forest"} ->
            /\ IF c.op = "movetree"
               THEN tree' = Put([k \in DOMAIN tree \ {<<FALSE, c.a[2]>>} |-> tree[k]], TreeKey(c), tree[<<FALSE, c.a[2]>>])
               ELSE tree' = Put(tree, TreeKey(c), [f |-> c.a[2], s |-> pc[0]])
            /\ LET used == {tree'[k].s : k \in DOMAIN tree'} IN
               val' = [s \in used |-> IF s \in DOMAIN val THEN val[s] ELSE Fresh(forest[c.a[2]].B)]
            /\ pc' = [q \in Ranks |-> pc[q] + 1] /\ run' = [q \in Ranks |-> c] /\ todo' = [q \in Ranks |-> {}]
            /\ UNCHANGED <<forest>>
       [] OTHER ->
            /\ pc' = [pc EXCEPT ![r] = @ + 1]
            /\ run' = [run EXCEPT ![r] = c]
            /\ todo' = [todo EXCEPT ![r] = Plan(c, r)]
            /\ UNCHANGED <<forest, tree, val>>

\* dump calls end by their own event
CanFinish(r) == Is(r, "end") /\ run[r] # Idle /\ Over(r)
Finish(r) == pc' = [pc EXCEPT ![r] = @ + 1] /\ run' = [run EXCEPT ![r] = Idle] /\ UNCHANGED <<forest, tree, val, todo>>
CanDone(r) == Is(r, "done") /\ run[r] = Idle
Done(r) == pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED <<forest, tree, val, todo, run>>

\* ---- C09: visits of a traversal
CanVisit(r) == Is(r, "visit") /\ Busy(r, Traversals) /\ todo[r] # <<>> /\ Ev(r).p = Head(todo[r]) /\ InnerAgrees(r)
Visit(r) == pc' = [pc EXCEPT ![r] = @ + 1] /\ todo' = [todo EXCEPT ![r] = Tail(@)] /\ UNCHANGED <<forest, tree, val, run>>

\* ---- C10: visits of a merge or split, with the data they see and write (the driver's visitors compute these)
RECURSIVE Hash(_)
Hash(p) == IF p = <<>> THEN 0 ELSE (Hash(Front(p)) * 5 + Last(p) + 1) % 9973
Store(r) == tree[TreeKey(run[r])].s
Stage(r) == run[r].a[2]
\* its turn: in a merge the nodes below it are done, in a split the nodes above it
Turn(r, p) == /\ p \in todo[r]
              /\ IF run[r].op = "merge" THEN \A q \in todo[r] : ~IsStrictPrefix(p, q) ELSE \A q \in todo[r] : ~IsStrictPrefix(q, p)
CanLeaf(r) ==
  /\ Is(r, "leaf") /\ Busy(r, Families) /\ Ev(r).p \notin ForestOf(run[r]).B
  /\ Turn(r, Ev(r).p) /\ Ev(r).see = val[Store(r)][Ev(r).p] /\ InnerAgrees(r)
LeafVisit(r) ==
  LET p == Ev(r).p IN
  /\ val' = [val EXCEPT ![Store(r)][p] = (@ * 3 + Hash(p) + Stage(r)) % 9973]
  /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ todo' = [todo EXCEPT ![r] = @ \ {p}]
  /\ UNCHANGED <<forest, tree, run>>
CanFamily(r) ==
  /\ Is(r, "family") /\ Busy(r, Families) /\ Ev(r).p \in ForestOf(run[r]).B
  /\ LET p == Ev(r).p s == Store(r) F == ForestOf(run[r]) IN
        \* all holders are at this family of the same call, it is their turn, and they see the family as it is
        \A q \in F.holders[p] :
          /\ Is(q, "family") /\ run[q] = run[r] /\ Ev(q).p = p /\ Turn(q, p) /\ InnerAgrees(q)
          /\ LET e == Ev(q) IN
             /\ e.see = val[s][p]
             /\ e.ch = [i \in 1..4 |-> val[s][Append(p, i - 1)]]
             /\ e.chp = [i \in 1..4 |-> Append(p, i - 1)]
             /\ e.lev = [i \in 1..4 |-> Len(p) + 1]
             /\ e.lf = [i \in 1..4 |-> IF Append(p, i - 1) \in F.B THEN 0 ELSE 1]
             /\ e.bulk = <<1, 1, 1, 1>>
FamilyVisit(r) ==
  LET p == Ev(r).p s == Store(r) H == ForestOf(run[r]).holders[p] IN
  /\ LET ch == [i \in 1..4 |-> val[s][Append(p, i - 1)]]
         b == (val[s][p] * 7 + Stage(r) + 2 * ch[1] + 3 * ch[2] + 4 * ch[3] + 5 * ch[4]) % 9973
     IN val' = [val EXCEPT ![s] = [q \in DOMAIN @ |-> IF q = p THEN b
                  ELSE IF q # <<>> /\ Front(q) = p THEN (@[q] + 3 * b + Last(q)) % 9973 ELSE @[q]]]
  /\ pc' = [q \in Ranks |-> IF q \in H THEN pc[q] + 1 ELSE pc[q]]
  /\ todo' = [q \in Ranks |-> IF q \in H THEN todo[q] \ {p} ELSE todo[q]]
  /\ UNCHANGED <<forest, tree, run>>

\* ---- C07, C08: the structure
StructOK(c, r, d) == LET F == ForestOf(c) IN d.path = d.key /\ d.level = Len(d.key) /\ d.leaf = (d.key \notin F.B)
GeoOK(c, d) ==
  IF c.op = "dump" THEN d.geo = LET s == Square(d.key, 1048576) IN <<d.key, <<s[1], s[2], s[3], s[3]>>>>
  ELSE \* fvdump repeats the arguments of fvtree: nx, ny, x0, y0, width, height; coordinates are in 1/W
    LET W == 1048576  a == c.a  s == Square(d.key, W) IN
      d.geo = <<<<a[3], a[4]>>, <<W * a[5] + a[7] * s[1], W * a[5] + a[7] * (s[1] + s[3]), W * a[6] + a[8] * s[2], W * a[6] + a[8] * (s[2] + s[3])>>>>
HoldOK(c, r, d) ==
  LET H == ForestOf(c).holders[d.key] IN
  /\ d.pfirst = Min(H) /\ d.plast = Max(H)
  /\ d.comm = [i \in 1..Cardinality(H) |-> Min(H) + i - 1] /\ d.me = r - Min(H)
Structure(c, r, nodes) == Len(nodes) = Cardinality(HeldIn(c, r)) /\ {nodes[i].key : i \in 1..Len(nodes)} = HeldIn(c, r)
CanDump(r) ==
  /\ Is(r, "dump") /\ Busy(r, {"dump", "fvdump"})
  /\ LET nodes == Ev(r).nodes c == run[r] IN
       /\ Structure(c, r, nodes)
       /\ \A i \in 1..Len(nodes) : (Focus # "C08" => StructOK(c, r, nodes[i]) /\ GeoOK(c, nodes[i])) /\ (Focus # "C07" => HoldOK(c, r, nodes[i]))
  /\ FollowedBy(r, "root") /\ Log[r][pc[r] + 2].same
Dump(r) == pc' = [pc EXCEPT ![r] = @ + 2] /\ UNCHANGED <<forest, tree, val, todo, run>>

\* a uniform tree of the given level: its nodes, its leaves, and what the two traversals visit, over all processes
CanBig(r) == Is(r, "big") /\ Busy(r, {"big"}) /\ LET l == 4 ^ run[r].a[1] n == (4 * l - 1) \div 3 IN Ev(r).n = <<n, l, n, n>>
Big(r) == pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED <<forest, tree, val, todo, run>>

Can(r) == CanBegin(r) \/ CanBig(r) \/ CanFinish(r) \/ CanDone(r) \/ CanVisit(r) \/ CanLeaf(r) \/ CanFamily(r) \/ CanDump(r)
Movers == {r \in Ranks : Can(r)}
Accepted == \A r \in Ranks : pc[r] = Len(Log[r])
Next == LET M == TLCEval(Movers) IN
        /\ M # {}
        /\ LET r == Min(M) IN
             CASE Is(r, "call") -> Begin(r) [] Is(r, "end") -> Finish(r) [] Is(r, "done") -> Done(r) [] Is(r, "visit") -> Visit(r)
               [] Is(r, "leaf") -> LeafVisit(r) [] Is(r, "family") -> FamilyVisit(r) [] Is(r, "dump") -> Dump(r) [] Is(r, "big") -> Big(r)
Spec == Init /\ [][Next]_vars

\* every reachable state can go on until the log is used up; the explanation of a stuck log is printed
Conforms == Movers # {} \/ Accepted \/
            ~PrintT("@" \o ToJson([pc |-> [i \in 1..P |-> pc[i - 1]], run |-> [i \in 1..P |-> run[i - 1]],
                                   todo |-> [i \in 1..P |-> todo[i - 1]]]))
=============================================================================
