----------------------------- MODULE KeepTrace ------------------------------
(* Runs of the real code, one line each: before and calls (names of the calls that prepare and that are done in every round, for
   slot 0), rounds, and o[p] = [bytes, comms, files], what process p holds after each round.  Every run must be meaningful for
   the stages of Keep (what prepares, then the calls again and again), observed completely, and nothing may grow. *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json
CONSTANTS Warm, Width
LOCAL INSTANCE Growth
M == INSTANCE Keep WITH MaxLen <- 1, Count <- 1, Defect <- "none", script <- <<>>, at <- 1, round <- 1, held <- 0, made <- FALSE, seen <- <<>>
Log == TLCEval(ndJsonDeserialize("log"))
VARIABLES at, found
vars == <<at, found>>
Steps(q) == SelectSeq(q, LAMBDA c : c \in DOMAIN M!Works)
Sensible(e) == LET s == M!Run(0, Steps(e.before)) q == Steps(e.calls) IN s >= 0 /\ M!Run(M!Run(s, q), q) >= 0
Found(e) ==
    (IF Sensible(e) THEN {} ELSE {<<"script", 0>>})
    \cup {<<"rounds", p>> : p \in {p \in DOMAIN e.o : Len(e.o[p].bytes) # e.rounds \/ Len(e.o[p].comms) # e.rounds \/ Len(e.o[p].files) # e.rounds}}
    \cup {<<"memory", p>> : p \in {p \in DOMAIN e.o : Grows(e.o[p].bytes, Warm, Width, 64)}}
    \cup {<<"communicators", p>> : p \in {p \in DOMAIN e.o : Grows(e.o[p].comms, Warm, Width, 1)}}
    \cup {<<"files", p>> : p \in {p \in DOMAIN e.o : Grows(e.o[p].files, Warm, Width, 1)}}
Init == at = 0 /\ found = {}
Next == /\ at < Len(Log) /\ at' = at + 1
        /\ LET f == TLCEval(Found(Log[at + 1])) IN found' = found \cup {<<at + 1, x[1], x[2]>> : x \in f}
Spec == Init /\ [][Next]_vars
Report == IF at = Len(Log) THEN PrintT("@" \o ToJson([at |-> at, found |-> found])) ELSE TRUE
=============================================================================
