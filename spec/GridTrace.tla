------------------------------ MODULE GridTrace -------------------------------
(***************************************************************************)
(* Patch grids and node creation.  A grid of nx by ny cells over a box; in *)
(* units of half a cell the centre of cell i lies at 2i + 1 from the lower *)
(* bound (also one cell outside on either side).  A node is a path from    *)
(* the root, a level and a box (in 1/4096); state: the nodes made so far.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, TLCExt, Json
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, node, wrong
vars == <<at, node, wrong>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Init == at = 0 /\ node = <<>> /\ wrong = {}
GridWrong(e) ==
  LET a == e.a
      \* units of 1/(2 nx 2^e): lower bound 2 nx x0, one cell 2 wx
      X(i) == 2 * a[1] * a[2] + (2 * i + 1) * a[3]
      Y(i) == 2 * a[5] * a[6] + (2 * i + 1) * a[7]
  IN (IF e.x = [k \in 1..(a[1] + 2) |-> X(k - 2)] /\ e.y = [k \in 1..(a[5] + 2) |-> Y(k - 2)] THEN {} ELSE {"centres"})
     \cup (IF e.x2 = [k \in 1..(a[1] + 1) |-> X(k - 1)] /\ e.y2 = [k \in 1..(a[5] + 1) |-> Y(k - 1)] THEN {} ELSE {"centres by dimension"})
     \cup (IF e.box = <<2 * a[1] * a[2], 2 * a[1] * (a[2] + a[3]), 2 * a[5] * a[6], 2 * a[5] * (a[6] + a[7]), 2 * a[3], 2 * a[7]>> THEN {} ELSE {"bounds and spacing"})
     \cup (IF e.n = <<a[1], a[5]>> THEN {} ELSE {"counts"})
Made(e) == [path |-> e.path, level |-> e.level, n |-> e.n, box |-> e.box, ranks |-> e.ranks]
Quarter(b, k) == LET mx == (b[1] + b[3]) \div 2 my == (b[2] + b[4]) \div 2 IN
                 <<IF k % 2 = 0 THEN b[1] ELSE mx, IF k \div 2 = 0 THEN b[2] ELSE my, IF k % 2 = 0 THEN mx ELSE b[3], IF k \div 2 = 0 THEN my ELSE b[4]>>
Expected(e) ==
  LET a == e.a IN
  CASE e.op = "node" -> [path |-> e.L[1], level |-> a[10], n |-> <<a[2], a[3]>>, box |-> [k \in 1..4 |-> 4096 * a[3 + k]], ranks |-> <<a[8], a[9]>>]
    [] e.op = "child" -> LET p == node[a[2]] IN [path |-> Append(p.path, a[3]), level |-> p.level + 1, n |-> p.n, box |-> Quarter(p.box, a[3]), ranks |-> <<a[4], a[5]>>]
    [] OTHER -> LET c == node[a[2]] d == node[a[3]] f == node[a[4]] IN
                [path |-> Front(c.path), level |-> c.level - 1, n |-> c.n, box |-> <<c.box[1], c.box[2], d.box[3], f.box[4]>>, ranks |-> <<a[6], a[7]>>]
Next ==
  LET e == Log[at + 1] IN
  /\ at < Len(Log) /\ wrong = {} /\ at' = at + 1
  /\ IF "ok" \notin DOMAIN e \/ e.ok = 0 THEN wrong' = {"stopped"} /\ UNCHANGED node
     ELSE IF e.op = "grid" THEN wrong' = GridWrong(e) /\ UNCHANGED node
     ELSE LET x == Expected(e) m == Made(e) IN
          /\ node' = Put(node, e.a[1], x)
          /\ wrong' = {f \in DOMAIN x : x[f] # m[f]}
Spec == Init /\ [][Next]_vars
Conforms == wrong = {} \/ ~PrintT("@" \o ToJson([at |-> at, wrong |-> wrong]))
=============================================================================
