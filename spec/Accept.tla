------------------------------- MODULE Accept -------------------------------
(* A listening server: outstanding accepts, the accept hook, the limit of live links, errors, stopping and starting again. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Num,      \* connections accepted at the same time
          Limit,    \* of live links
          EMIT
VARIABLES svc, lis, acc, dl, live   \* service started; listening; outstanding accepts; accepts to be started again later; live links
vars == <<svc, lis, acc, dl, live>>
St == [svc |-> svc, lis |-> lis, acc |-> acc, dl |-> dl, live |-> live]
Obs == [svc |-> svc', lis |-> lis', acc |-> acc', live |-> live']
Emit(k, a, r) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> a, res |-> [ok |-> r] @@ Obs], post |-> St'])) ELSE TRUE
Init == svc = FALSE /\ lis = FALSE /\ acc = 0 /\ dl = 0 /\ live = 0 /\ (IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE)
Fails == {"", "bind", "listen"}
Begin == /\ ~svc /\ ~lis /\ \E f \in Fails : /\ svc' = (f = "") /\ lis' = (f = "") /\ acc' = (IF f = "" THEN Num ELSE 0) /\ dl' = 0 /\ UNCHANGED live
                                             /\ Emit("begin", <<f>>, f = "")
Halt == svc /\ svc' = FALSE /\ lis' = FALSE /\ acc' = 0 /\ dl' = 0 /\ live' = 0 /\ Emit("halt", <<>>, TRUE)
Listen == \E f \in Fails : /\ UNCHANGED <<svc, live>>
             /\ IF lis THEN UNCHANGED <<lis, acc, dl>> /\ Emit("listen", <<f>>, FALSE)
                ELSE lis' = (f = "") /\ acc' = (IF f = "" THEN Num ELSE 0) /\ dl' = 0 /\ Emit("listen", <<f>>, f = "")
StopListen == lis' = FALSE /\ acc' = 0 /\ dl' = 0 /\ UNCHANGED <<svc, live>> /\ Emit("stop", <<>>, TRUE)
\* stopped and started at once: answers to the accepts of before are still under way
Restart == lis /\ acc' = Num /\ dl' = 0 /\ UNCHANGED <<svc, lis, live>> /\ Emit("restart", <<>>, TRUE)
\* a connection arrives; its object is refused by the hook or by the limit, or becomes a live link; the next one can arrive
Arrive == acc > 0 /\ \E ok \in BOOLEAN : /\ live' = (IF ok /\ live < Limit THEN live + 1 ELSE live) /\ UNCHANGED <<svc, lis, acc, dl>>
                                        /\ Emit("arrive", <<ok>>, ok /\ live < Limit)
\* the acceptor fails; what the application wants then
Error == acc > 0 /\ \E h \in {"go", "later", "stop"} : /\ UNCHANGED <<svc, live>>
           /\ CASE h = "go" -> UNCHANGED <<lis, acc, dl>>
                [] h = "later" -> acc' = acc - 1 /\ dl' = dl + 1 /\ UNCHANGED lis
                [] h = "stop" -> lis' = FALSE /\ acc' = 0 /\ dl' = 0
           /\ Emit("error", <<h>>, TRUE)
Later == dl > 0 /\ acc' = acc + dl /\ dl' = 0 /\ UNCHANGED <<svc, lis, live>> /\ Emit("later", <<>>, TRUE)
Break == live > 0 /\ \E n \in 1..live : live' = live - n /\ UNCHANGED <<svc, lis, acc, dl>> /\ Emit("break", <<n>>, TRUE)
Next == Begin \/ Halt \/ Listen \/ StopListen \/ Restart \/ Arrive \/ Error \/ Later \/ Break
Spec == Init /\ [][Next]_vars
AcceptsWhileListening == /\ lis => acc + dl = Num
                         /\ ~lis => acc = 0 /\ dl = 0
Bounded == live <= Limit
=============================================================================
