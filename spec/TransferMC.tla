----------------------------- MODULE TransferMC ------------------------------
(* All programs of N transfers from one process to another, all interleavings, all orders in which the receiver takes tags. *)
EXTENDS Transfer, TLC
CONSTANTS N, Tags, Scheme
Kinds == {"scalar", "sequence", "matrix"}
VARIABLES program, sent, net, todo, now, got, right
vars == <<program, sent, net, todo, now, got, right>>
\* flattened messages of the program: <<tag, transfer, part>>
Messages == LET of(k) == LET p == Plan(program[k].kind, Scheme) IN [i \in 1..Len(p) |-> <<program[k].tag + p[i], k, i>>]
            IN FoldLeft(LAMBDA x, k : x \o of(k), <<>>, [k \in 1..N |-> k])
Init == /\ program \in [1..N -> [tag : Tags, kind : Kinds]]
        /\ sent = 0 /\ net = <<>> /\ todo = 1..N /\ now = <<0, 0>> /\ got = <<>> /\ right = TRUE
Send == /\ sent < Len(Messages)
        /\ LET m == Messages[sent + 1] IN net' = Posted(net, m[1], <<m[2], m[3]>>)
        /\ sent' = sent + 1 /\ UNCHANGED <<program, todo, now, got, right>>
\* the receiver starts on any transfer whose predecessors under the same tag have been received
Start == /\ now[1] = 0
         /\ \E k \in todo : /\ \A j \in todo : program[j].tag = program[k].tag => j >= k
                            /\ now' = <<k, 1>> /\ todo' = todo \ {k}
         /\ UNCHANGED <<program, sent, net, got, right>>
Receive == /\ now[1] # 0
           /\ LET k == now[1] p == Plan(program[k].kind, Scheme) t == program[k].tag + p[now[2]] IN
              /\ Boxed(net, t) # <<>>
              /\ right' = (right /\ Head(Boxed(net, t)) = now)
              /\ net' = Taken(net, t)
              /\ now' = IF now[2] = Len(p) THEN <<0, 0>> ELSE <<k, now[2] + 1>>
              /\ got' = IF now[2] = Len(p) THEN Append(got, k) ELSE got
           /\ UNCHANGED <<program, sent, todo>>
Next == Send \/ Start \/ Receive
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exact == right                                              \* every part received belongs to the transfer being received
Complete == <>(Len(got) = N)                                \* and every transfer completes
=============================================================================
