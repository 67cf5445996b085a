------------------------------ MODULE MeshTrace ------------------------------
(***************************************************************************)
(* Meshes on P processes: refinement, iteration, mesh functions, output    *)
(* files.  State: per mesh its geometry, the leaves of every process and   *)
(* the functions added so far; per writer what it was given; the contents  *)
(* every output file must have by now.                                     *)
(* Positions: X, Y count half-widths of the finest cells from the corner   *)
(* of the domain; a log line carries the observations of all processes.    *)
(***************************************************************************)
EXTENDS Tree, TLC, TLCExt, Json
R == INSTANCE Refine
CONSTANTS P, Focus            \* Focus: which observations are judged ("C11", "C12", "C13"), or "all"
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, mesh, writer, rgrid, files, wrong
vars == <<at, mesh, writer, rgrid, files, wrong>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Init == at = 0 /\ mesh = <<>> /\ writer = <<>> /\ rgrid = <<>> /\ files = <<>> /\ wrong = {}
Procs == 1..P

\* ---- leaves
PathOf(q) == IF q[1] = 0 THEN <<>> ELSE [k \in 1..q[1] |-> LET s == q[1] - k IN ((q[2] \div (2 ^ s)) % 2) + 2 * ((q[3] \div (2 ^ s)) % 2)]
Geo(a) == [nx |-> a[2], ny |-> a[8], x0 |-> a[3], y0 |-> a[4], hx |-> a[5], hy |-> a[6], lev |-> a[7]]
\* the criterion holds at a cell centre of q: the finest cell containing the centre is listed
HotAt(g, cells, q) ==
  LET s == 2 ^ (g.lev - q[1]) IN
  \E i \in 0..(g.nx - 1), j \in 0..(g.ny - 1) : <<(q[2] * g.nx + i) * s + s \div 2, (q[3] * g.ny + j) * s + s \div 2>> \in cells
Refined(e) ==
  LET g == Geo(e.a)
      hot == {<<e.L[i][1], e.L[i][2]>> : i \in 1..Len(e.L)}
      B == R!Balanced(R!Hot(R!Root, LAMBDA q : HotAt(g, hot, q), e.a[9], e.a[10]))
  IN {PathOf(q) : q \in B}
BranchesOf(e) == IF e.op = "mesh" THEN {e.L[i] : i \in 2..Len(e.L)} ELSE Refined(e)

\* ---- cells of a leaf, in the order in which they are numbered
Corner(g, p) == LET sq == Square(p, 2 ^ g.lev) IN <<g.nx * sq[1], g.ny * sq[2], sq[3]>>            \* finest cells: corner and cell size
Rect(g, p) == LET c == Corner(g, p) IN <<2 * c[1], 2 * c[2], 2 * (c[1] + g.nx * c[3]), 2 * (c[2] + g.ny * c[3]), g.nx, g.ny>>
CellsOf(g, leaves) ==
  TLCEval([k \in 1..(Len(leaves) * g.nx * g.ny) |->
     LET c == Corner(g, leaves[1 + (k - 1) \div (g.nx * g.ny)])
         m == (k - 1) % (g.nx * g.ny)
     IN <<c[1] + (m \div g.ny) * c[3], c[2] + (m % g.ny) * c[3], c[3]>>])
Centre(c) == <<2 * c[1] + c[3], 2 * c[2] + c[3]>>
Value(f, c) == 125 * (f[1] + ((f[2] * Centre(c)[1] + f[3] * Centre(c)[2]) % f[4]))                     \* thousandths
Values(f, cells) == TLCEval([k \in 1..Len(cells) |-> Value(f, cells[k])])
NameOf(k) == CASE k = 0 -> "u" [] k = 1 -> "load_f" [] k = 2 -> "error" [] k = 3 -> "x velocity" [] k = 4 -> "|u| < 1 & \"v\"" [] OTHER -> "q" \o ToString(k)

\* ---- files
\* corners of a cell in the order of a counter-clockwise walk, starting anywhere
Quad(g, c) == LET x(i) == g.x0 + g.hx * (c[1] + i * c[3]) y(j) == g.y0 + g.hy * (c[2] + j * c[3]) IN <<<<x(0), y(0), 0>>, <<x(1), y(0), 0>>, <<x(1), y(1), 0>>, <<x(0), y(1), 0>>>>
Turn(q, t) == [k \in 1..4 |-> q[1 + ((k - 1 + t) % 4)]]
ArraysWrong(have, names, vals) ==
  IF /\ Len(have) = Len(names)
     /\ \A k \in 1..Len(names) : LET A == have[k] IN
          /\ A.name = names[k] /\ A.comps = 1 /\ A.v = vals[k]
          /\ (Len(A.v) > 0 => A.lo = Min(Range(A.v)) /\ A.hi = Max(Range(A.v))) THEN {} ELSE {"data arrays"}
AtPoints(n) == [k \in 1..n |-> 250 * ((k - 1) % 97)]
Names(fns) == [k \in 1..Len(fns) |-> NameOf(fns[k].name)]
PieceWrong(g, cells, fns, points, r, f) ==
  IF f.ok = 0 THEN {"piece missing or malformed"}
  ELSE LET n == Len(cells)
           point(i) == <<f.pts[3 * i + 1], f.pts[3 * i + 2], f.pts[3 * i + 3]>>
       IN (IF f.nc = n /\ f.np * 3 = Len(f.pts) /\ f.comps = 3 THEN {} ELSE {"counts of a piece"})
          \cup (IF f.off = [k \in 1..n |-> 4 * k] THEN {} ELSE {"offsets"})
          \cup (IF f.typ = [k \in 1..n |-> 9] THEN {} ELSE {"cell types"})
          \cup (IF Len(f.conn) = 4 * n /\ \A i \in 1..Len(f.conn) : f.conn[i] >= 0 /\ f.conn[i] * 3 + 3 <= Len(f.pts) THEN {} ELSE {"connectivity"})
          \cup (IF /\ Len(f.conn) >= 4 * n /\ \A i \in 1..Len(f.conn) : f.conn[i] >= 0 /\ f.conn[i] * 3 + 3 <= Len(f.pts)
                   /\ \A k \in 1..n : LET have == [i \in 1..4 |-> point(f.conn[4 * (k - 1) + i])] q == Quad(g, cells[k]) IN \E t \in 0..3 : have = Turn(q, t)
                THEN {} ELSE {"corners of cells"})
          \cup ArraysWrong(f.arrays, Names(fns), [k \in 1..Len(fns) |-> fns[k].vals[r]])
          \cup (IF points THEN ArraysWrong(f.parrays, <<"at_points">>, <<AtPoints(4 * n)>>) ELSE ArraysWrong(f.parrays, <<>>, <<>>))
IndexWrong(X, x) ==
  IF x.ok = 0 THEN {"index missing or malformed"}
  ELSE (IF Len(x.files) = P /\ Cardinality(Range(x.files)) = P THEN {} ELSE {"pieces named by the index"})
       \cup (IF x.pcomps = 3 /\ Len(x.cells) = Len(X.fns) /\ \A k \in 1..Len(X.fns) : x.cells[k].name = NameOf(X.fns[k].name) /\ x.cells[k].comps = 1
                /\ x.points = (IF X.points THEN <<[name |-> "at_points", comps |-> 1]>> ELSE <<>>)
             THEN {} ELSE {"arrays named by the index"})
       \cup (IF Len(x.pieces) # P THEN {"pieces"} ELSE UNION {PieceWrong(X.g, X.cells[r], X.fns, X.points, r, x.pieces[r]) : r \in Procs})
RectWrong(X, x) ==
  IF x.ok = 0 THEN {"grid missing or malformed"}
  ELSE LET ext == <<0, Len(X.x) - 1, 0, Len(X.y) - 1, 0, 0>> IN
       (IF x.whole = ext /\ x.extent = ext THEN {} ELSE {"extents"}) \cup (IF x.coords = <<X.x, X.y, <<0>>>> THEN {} ELSE {"coordinates"})
       \cup ArraysWrong(x.arrays, [k \in 1..Len(X.cell) |-> "r" \o ToString(k)], X.cell)
       \cup ArraysWrong(x.parrays, [k \in 1..Len(X.point) |-> "r" \o ToString(Len(X.cell) + k)], X.point)
\* every file ever written describes what was written under its name last
FileWrong(X, x) ==
  IF X.kind # x.kind THEN {"kind of file"}
  ELSE IF X.kind = 0 THEN IndexWrong(X, x) ELSE IF X.kind = 1 THEN PieceWrong(X.g, X.cells[X.r], X.fns, X.points, X.r, x) ELSE RectWrong(X, x)
FilesWrong(F, seen) ==
  (IF DOMAIN F = {seen[i].name : i \in 1..Len(seen)} THEN {} ELSE {"files"})
  \cup UNION {IF seen[i].name \in DOMAIN F THEN FileWrong(F[seen[i].name], seen[i]) ELSE {} : i \in 1..Len(seen)}

Digits4(n) == (IF n < 10 THEN "000" ELSE IF n < 100 THEN "00" ELSE IF n < 1000 THEN "0" ELSE "") \o ToString(n)
MeshIndex(base, number) == base \o "-mesh" \o (IF number = -1 THEN "" ELSE "-" \o Digits4(number)) \o ".pvtu"
Contents(M, points) == [kind |-> 0, g |-> M.g, cells |-> M.cells, fns |-> M.fns, points |-> points]
RECURSIVE PutSerial(_, _, _, _)
PutSerial(F, base, X, r) ==
  IF r = 0 THEN F ELSE PutSerial(Put(F, base \o "-" \o ToString(r - 1) \o ".vtu", [kind |-> 1, g |-> X.g, cells |-> X.cells, fns |-> X.fns, points |-> X.points, r |-> r]), base, X, r - 1)

Judge(focuses, w) == IF Focus = "all" \/ Focus \in focuses THEN w ELSE {}
Next ==
  LET e == Log[at + 1] o == e.r IN
  /\ at < Len(Log) /\ wrong = {} /\ at' = at + 1
  /\ IF e.ok = 0 \/ \E r \in Procs : o[r].threw = 1 THEN wrong' = {"stopped"} /\ UNCHANGED <<mesh, writer, rgrid, files>>
     ELSE CASE e.op \in {"mesh", "refine"} ->
                 LET g == Geo(e.a)
                     leaves == [r \in Procs |-> o[r].leaves]
                     kept == IF e.a[1] \in DOMAIN mesh /\ e.op = "refine" THEN mesh[e.a[1]].fns ELSE <<>>
                     cells == TLCEval([r \in Procs |-> CellsOf(g, leaves[r])])
                     order == TLCEval(LeafOrder(BranchesOf(e)))
                     whole == FoldLeft(LAMBDA x, y : x \o y, <<>>, leaves)
                 IN /\ wrong' = Judge({"C11", "C12"}, IF whole = order THEN {} ELSE {"leaves"})
                              \cup Judge({"C11", "C12"}, IF whole = order /\ \A r \in Procs : o[r].rects = [k \in 1..Len(leaves[r]) |-> Rect(g, leaves[r][k])] THEN {} ELSE {"rectangles"})
                              \cup Judge({"C11", "C13"}, IF whole = order /\ \A r \in Procs : o[r].ncells = Len(cells[r]) /\ o[r].npoints = 4 * Len(cells[r]) THEN {} ELSE {"numbers of cells and points"})
                    /\ mesh' = IF whole = order THEN Put(mesh, e.a[1], [g |-> g, leaves |-> leaves, cells |-> cells, fns |-> kept]) ELSE mesh
                    /\ UNCHANGED <<writer, rgrid, files>>
            [] e.op = "patches" ->
                 LET M == mesh[e.a[1]] IN
                 /\ wrong' = Judge({"C12"}, IF \A r \in Procs : o[r].rects = [k \in 1..Len(M.leaves[r]) |-> Rect(M.g, M.leaves[r][k])] THEN {} ELSE {"patches"})
                 /\ UNCHANGED <<mesh, writer, rgrid, files>>
            [] e.op = "cells" ->
                 LET M == mesh[e.a[1]] IN
                 /\ wrong' = Judge({"C12"}, IF \A r \in Procs : o[r].cells = [k \in 1..Len(M.cells[r]) |-> Centre(M.cells[r][k])] THEN {} ELSE {"cells"})
                 /\ UNCHANGED <<mesh, writer, rgrid, files>>
            [] e.op \in {"addfn", "addpw"} ->
                 LET M == mesh[e.a[1]]
                     vals == TLCEval([r \in Procs |-> Values(e.L[1], M.cells[r])])
                 IN /\ wrong' = Judge({"C12"}, (IF \A r \in Procs : o[r].vals = vals[r] THEN {} ELSE {"values"})
                                              \cup (IF \A r \in Procs : o[r].added = 1 /\ o[r].name = NameOf(e.a[2]) THEN {} ELSE {"entry"}))
                    /\ mesh' = [mesh EXCEPT ![e.a[1]].fns = Append(@, [name |-> e.a[2], vals |-> vals])]
                    /\ UNCHANGED <<writer, rgrid, files>>
            [] e.op = "clear" ->
                 /\ wrong' = Judge({"C12"}, IF \A r \in Procs : o[r].fns = 0 THEN {} ELSE {"mesh functions"})
                 /\ mesh' = [mesh EXCEPT ![e.a[1]].fns = <<>>] /\ UNCHANGED <<writer, rgrid, files>>
            [] e.op = "writer" -> /\ writer' = Put(writer, e.a[1], [serial |-> e.a[3] = 1, X |-> Contents(mesh[e.a[2]], e.a[4] = 1)])
                                  /\ UNCHANGED <<mesh, rgrid, files, wrong>>
            [] e.op = "rgrid" -> LET nc == e.a[2] IN
                 /\ rgrid' = Put(rgrid, e.a[1], [kind |-> 2, x |-> e.L[1], y |-> e.L[2], cell |-> SubSeq(e.L, 3, 2 + nc), point |-> SubSeq(e.L, 3 + nc, Len(e.L))])
                 /\ UNCHANGED <<mesh, writer, files, wrong>>
            [] OTHER ->
                 LET base == e.r[1].base
                     F == CASE e.op = "vtk" -> Put(files, MeshIndex(base, e.a[3]), Contents(mesh[e.a[1]], FALSE))
                            [] e.op = "rwrite" -> Put(files, base \o ".vtr", rgrid[e.a[1]])
                            [] OTHER -> IF writer[e.a[1]].serial THEN PutSerial(files, base, writer[e.a[1]].X, P) ELSE Put(files, base \o ".pvtu", writer[e.a[1]].X)
                 IN /\ wrong' = Judge({"C13"}, FilesWrong(F, e.files)) /\ files' = F /\ UNCHANGED <<mesh, writer, rgrid>>
Spec == Init /\ [][Next]_vars
Conforms == wrong = {} \/ ~PrintT("@" \o ToJson([at |-> at, wrong |-> wrong]))
=============================================================================
