------------------------------ MODULE Singleton ------------------------------
(* N threads ask for the one object at once; the first to find none makes it.  With Lock, the finding and making are one step of exclusion. *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Lock
VARIABLES pc, held, object, made, handed
vars == <<pc, held, object, made, handed>>
T == 1..N
Init == pc = [t \in T |-> "ask"] /\ held = 0 /\ object = 0 /\ made = 0 /\ handed = [t \in T |-> 0]
Ask(t) == pc[t] = "ask" /\ (Lock => held = 0) /\ held' = (IF Lock THEN t ELSE held) /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED <<object, made, handed>>
Look(t) == pc[t] = "look" /\ pc' = [pc EXCEPT ![t] = IF object = 0 THEN "make" ELSE "take"] /\ UNCHANGED <<held, object, made, handed>>
Make(t) == pc[t] = "make" /\ made' = made + 1 /\ object' = made + 1 /\ pc' = [pc EXCEPT ![t] = "take"] /\ UNCHANGED <<held, handed>>
Take(t) == pc[t] = "take" /\ handed' = [handed EXCEPT ![t] = object] /\ held' = (IF Lock THEN 0 ELSE held) /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<object, made>>
Next == \E t \in T : Ask(t) \/ Look(t) \/ Make(t) \/ Take(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OneObject == made <= 1 /\ \A t \in T : pc[t] = "done" => handed[t] = 1
AllServed == <>(\A t \in T : pc[t] = "done")
=============================================================================
