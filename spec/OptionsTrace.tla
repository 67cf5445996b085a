---------------------------- MODULE OptionsTrace -----------------------------
(* Recorded settings of options; every line carries the complete options afterwards as <<name, kind, value>> triples. *)
EXTENDS Options, TLC, TLCExt, Json
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, opt, wrong
vars == <<at, opt, wrong>>
Init == at = 0 /\ opt = <<>> /\ wrong = {}
Kind(n) == CASE n = 0 -> "text" [] n = 1 -> "flag" [] n = 2 -> "int" [] OTHER -> "float"
Same(e, f) ==
  LET o == e.options IN
  /\ Len(o) = Cardinality(DOMAIN f)
  /\ \A i \in 1..Len(o) : o[i].n \in DOMAIN f /\ f[o[i].n] = [k |-> Kind(o[i].k), v |-> o[i].v]
Next ==
  LET e == Log[at + 1] IN
  /\ at < Len(Log) /\ wrong = {} /\ at' = at + 1
  /\ CASE e.threw = 1 /\ e.op # "nofile" -> wrong' = {"stopped"} /\ UNCHANGED opt
       [] e.op = "values" ->            \* a list of texts and what each was taken for
            /\ wrong' = UNION {IF [k |-> Kind(e.got[i].k), v |-> e.got[i].v] = Value(e.L[i]) THEN {} ELSE {<<"value of", e.L[i]>>} : i \in 1..Len(e.L)}
            /\ UNCHANGED opt
       [] e.op = "files" ->             \* independent files, each read into fresh options
            /\ wrong' = UNION {IF Same([options |-> e.got[i]], File(<<>>, e.files[i])) THEN {} ELSE {<<"file", i>>} : i \in 1..Len(e.files)}
            /\ UNCHANGED opt
       [] e.op = "exists" ->
            /\ wrong' = (IF e.found = (IF e.L[1] \in DOMAIN opt THEN 1 ELSE 0) THEN {} ELSE {"presence"})
                        \cup (IF Same(e, opt) THEN {} ELSE {"options"})
            /\ UNCHANGED opt
       [] OTHER ->
            LET new == CASE e.op = "new" -> <<>>
                         [] e.op = "set" -> Set(opt, e.L[1], [k |-> Kind(e.a[1]), v |-> e.L[2]])
                         [] e.op = "file" -> File(opt, e.L)
                         [] e.op = "nofile" -> opt              \* no such file, or a name that is not an INI file's
                         [] e.op = "args" -> Arguments(opt, e.L)
                         [] e.op = "argv" -> Arguments(<<>>, e.L)               \* what the application made of its own command line
            IN /\ wrong' = (IF Same(e, new) THEN {} ELSE {"options"}) \cup (IF e.op = "nofile" /\ e.threw # e.a[1] THEN {"exception"} ELSE {})
               /\ opt' = new
Spec == Init /\ [][Next]_vars
Conforms == wrong = {} \/ ~PrintT("@" \o ToJson([at |-> at, wrong |-> wrong]))
=============================================================================
