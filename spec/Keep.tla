-------------------------------- MODULE Keep --------------------------------
(* Repeated work and what it leaves behind.  Objects (a mesh with its tree and solver) own resources; work uses them, may make
   things when first needed and keep them, takes temporary resources, or replaces what an object owns.  The same work is done
   round after round.  A piece of work is meaningful only in some stages of a solve (Works gives the stages it needs and the one
   it leaves); a script is meaningful if it can be done again and again.
   With Defect = "none" what is held after a round depends on the objects alone, and Growth never reports it although single
   observations jitter; with the defects it is reported whenever the script contains the work concerned. *)
EXTENDS Growth, FiniteSets, TLC, Json
CONSTANTS MaxLen, Warm, Width, Count, Defect
(* stages: 0 mesh, 1 built, 2 load given *)
Works == [ build |-> [needs |-> {0, 1, 2}, gives |-> 1, kind |-> "use"], up |-> [needs |-> {1, 2}, gives |-> 2, kind |-> "use"],
           solve |-> [needs |-> {2}, gives |-> 2, kind |-> "use"], refine |-> [needs |-> {0, 1, 2}, gives |-> 0, kind |-> "replace"],
           walk |-> [needs |-> {0, 1, 2}, gives |-> -1, kind |-> "use"], first |-> [needs |-> {0, 1, 2}, gives |-> -1, kind |-> "lazy"],
           pass |-> [needs |-> {0, 1, 2}, gives |-> -1, kind |-> "temporary"] ]
After(s, w) == IF s \notin Works[w].needs THEN -9 ELSE IF Works[w].gives = -1 THEN s ELSE Works[w].gives
RECURSIVE Run(_, _)
Run(s, q) == IF q = <<>> THEN s ELSE IF s < 0 THEN -9 ELSE Run(After(s, Head(q)), Tail(q))
Meaningful(q) == Run(Run(2, q), q) >= 0

VARIABLES script, at, round, held, made, seen
vars == <<script, at, round, held, made, seen>>
Scripts == UNION {[1..n -> DOMAIN Works] : n \in 1..MaxLen}
Init == /\ script \in {q \in Scripts : Meaningful(q)} /\ at = 1 /\ round = 1 /\ held = 5 /\ made = FALSE /\ seen = <<>>
Kept(w) ==      \* what a defective work keeps, each time
    CASE Defect = "temporary" /\ Works[w].kind = "temporary" -> 2
      [] Defect = "replaced" /\ Works[w].kind = "replace" -> 5
      [] Defect = "lazy" /\ Works[w].kind = "lazy" -> 2          \* makes it again each time
      [] OTHER -> 0
Do == /\ at <= Len(script) /\ round <= Warm + Count * Width
      /\ LET w == script[at] IN
           /\ made' = (made \/ Works[w].kind = "lazy")
           /\ held' = held + Kept(w) + IF Works[w].kind = "lazy" /\ ~made THEN 3 ELSE 0
      /\ at' = at + 1 /\ UNCHANGED <<script, round, seen>>
Look == /\ at = Len(script) + 1 /\ round <= Warm + Count * Width
        /\ \E j \in {0, 1} : seen' = Append(seen, held + j)
        /\ at' = 1 /\ round' = round + 1 /\ UNCHANGED <<script, held, made>>
Next == Do \/ Look
Spec == Init /\ [][Next]_vars
Done == round = Warm + Count * Width + 1
Guilty(w) == CASE Defect = "temporary" -> Works[w].kind = "temporary" [] Defect = "replaced" -> Works[w].kind = "replace" [] Defect = "lazy" -> Works[w].kind = "lazy" [] OTHER -> FALSE
(* the oracle is right about every script, whatever single observations do *)
Decided == Done => (Grows(seen, Warm, Width, 2) <=> \E i \in DOMAIN script : Guilty(script[i]))
(* what is held after a round depends on the objects and on what was made, not on the number of rounds *)
Bounded == held = 5 + IF made THEN 3 ELSE 0
Emit == IF round = 1 /\ at = 1 THEN PrintT("@" \o ToJson(script)) ELSE TRUE
=============================================================================
