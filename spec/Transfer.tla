------------------------------ MODULE Transfer -------------------------------
(***************************************************************************)
(* Values travel as one or more messages: a scalar in one, a string or     *)
(* sequence as its length and its content, a matrix as two lengths and a   *)
(* sequence.  Messages between two processes under one tag arrive in the   *)
(* order sent; a receiver may take tags in any order.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* tag offsets of the messages a value is sent in
Plan(kind, scheme) ==
  CASE kind = "scalar" -> <<0>>
    [] kind = "sequence" -> <<0, 0>>
    [] kind = "matrix" -> IF scheme = "shifted" THEN <<1, 2, 0, 0>> ELSE <<0, 0, 0, 0>>

\* ------ the meaning of transfers: boxes of undelivered values per (communicator, source, destination, tag)
Boxed(box, k) == IF k \in DOMAIN box THEN box[k] ELSE <<>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Posted(box, k, v) == With(box, k, Append(Boxed(box, k), v))
Taken(box, k) == With(box, k, Tail(Boxed(box, k)))

\* gathering: pieces (one per process) laid at given displacements over the previous content
RECURSIVE Laid(_, _, _, _)
Laid(into, pieces, disp, k) ==
  IF k = 0 THEN into
  ELSE LET prev == Laid(into, pieces, disp, k - 1)
       IN [i \in 1..Len(prev) |-> IF i > disp[k] /\ i <= disp[k] + Len(pieces[k]) THEN pieces[k][i - disp[k]] ELSE prev[i]]
Reduced(op, pieces) ==
  [i \in 1..Len(pieces[1]) |->
     FoldLeft(LAMBDA x, y : CASE op = 0 -> x + y [] op = 1 -> IF x > y THEN x ELSE y [] OTHER -> IF x < y THEN x ELSE y,
              pieces[1][i], [r \in 1..(Len(pieces) - 1) |-> pieces[r + 1][i]])]
=============================================================================
