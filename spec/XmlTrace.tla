------------------------------ MODULE XmlTrace -------------------------------
(***************************************************************************)
(* XML trees and the documents written from them.  Node: [name, text,      *)
(* attrs (pairs), kids (ids)]; all text as sequences of character codes.   *)
(* A document is a sequence of lines.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, TLCExt, Json
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, node, wrong
vars == <<at, node, wrong>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Init == at = 0 /\ node = <<>> /\ wrong = {}
Head1 == <<60, 63, 120, 109, 108, 32, 118, 101, 114, 115, 105, 111, 110, 61, 34, 49, 46, 48, 34, 63, 62>>      \* <?xml version="1.0"?>
Spaces(n) == [i \in 1..n |-> 32]
\* text may span lines
RECURSIVE SplitLines(_, _)
SplitLines(t, cur) == IF t = <<>> THEN <<cur>> ELSE IF Head(t) = 10 THEN <<cur>> \o SplitLines(Tail(t), <<>>) ELSE SplitLines(Tail(t), Append(cur, Head(t)))
\* characters that may not appear in the value of an attribute: & < > "
Entity(c) == CASE c = 38 -> <<38, 97, 109, 112, 59>> [] c = 60 -> <<38, 108, 116, 59>> [] c = 62 -> <<38, 103, 116, 59>> [] c = 34 -> <<38, 113, 117, 111, 116, 59>> [] OTHER -> <<c>>
Escaped(t) == FoldLeft(LAMBDA x, c : x \o Entity(c), <<>>, t)
RECURSIVE Lines(_, _)
Lines(id, depth) ==
  LET n == node[id]
      attrs == FoldLeft(LAMBDA x, y : x \o <<32>> \o y[1] \o <<61, 34>> \o Escaped(y[2]) \o <<34>>, <<>>, n.attrs)
  IN <<Spaces(2 * depth) \o <<60>> \o n.name \o attrs \o <<62>>>>
     \o (IF n.text = <<>> THEN <<>> ELSE SplitLines(n.text, <<>>))
     \o FoldLeft(LAMBDA x, k : x \o Lines(k, depth + 1), <<>>, n.kids)
     \o <<Spaces(2 * depth) \o <<60, 47>> \o n.name \o <<62>>>>
Document(root) == <<Head1>> \o Lines(root, 0)
Next ==
  LET e == Log[at + 1] a == e.a IN
  /\ at < Len(Log) /\ wrong = {} /\ at' = at + 1
  /\ CASE e.threw = 1 -> wrong' = {"stopped"} /\ UNCHANGED node
       [] e.op = "xnode" -> node' = Put(node, a[1], [name |-> e.L[1], text |-> e.L[2], attrs |-> <<>>, kids |-> <<>>]) /\ UNCHANGED wrong
       [] e.op = "xattr" -> node' = [node EXCEPT ![a[1]].attrs = Append(@, <<e.L[1], e.L[2]>>)] /\ UNCHANGED wrong
       [] e.op = "xtext" -> node' = [node EXCEPT ![a[1]].text = e.L[1]] /\ UNCHANGED wrong
       [] e.op = "xchild" -> node' = [node EXCEPT ![a[1]].kids = Append(@, a[2])] /\ UNCHANGED wrong
       [] e.op = "xwrite" -> /\ wrong' = (IF e.lines = Document(a[1]) THEN {} ELSE {"document"}) /\ UNCHANGED node
       [] e.op = "xshow" -> /\ wrong' = (IF e.name = node[a[1]].name /\ e.text = node[a[1]].text /\ e.attrs = node[a[1]].attrs /\ e.kids = node[a[1]].kids THEN {} ELSE {"node"}) /\ UNCHANGED node
Spec == Init /\ [][Next]_vars
Conforms == wrong = {} \/ ~PrintT("@" \o ToJson([at |-> at, wrong |-> wrong]))
=============================================================================
