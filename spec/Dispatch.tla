------------------------------ MODULE Dispatch ------------------------------
(* Who offers received messages to the handler: the reading side, the workers running the dispatch strand and the retry timer,
   at the grain of one access to shared data per step. TLC checks that messages are offered one at a time and in order, that a
   refused message is not offered again before its interval, and that none is left behind; its behaviours are the schedules
   under which the driver runs the real threads. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS N, Refusals, Workers, EMIT    \* messages; how often the handler refuses at most
VARIABLES rd, rpc, buf, held, disp, timer, jobs, busy, pc, taken, left, early
vars == <<rd, rpc, buf, held, disp, timer, jobs, busy, pc, taken, left, early>>
\* rd: messages read; buf: messages in the receive buffer; held: the message which was refused (0: none); disp: the dispatching flag;
\* timer: "off" | "on" | "fired"; taken: messages accepted; left: refusals left; early: a refused message was offered before its interval
St == [rd |-> rd, rpc |-> rpc, buf |-> buf, held |-> held, disp |-> disp, timer |-> timer, jobs |-> jobs, busy |-> busy, pc |-> pc, taken |-> taken, left |-> left, early |-> early]
Emit(t) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> t], post |-> St'])) ELSE TRUE
Init == /\ rd = 0 /\ rpc = "idle" /\ buf = <<>> /\ held = 0 /\ disp = FALSE /\ timer = "off" /\ jobs = <<>> /\ busy = FALSE
        /\ pc = [w \in Workers |-> [at |-> "idle", m |-> 0]] /\ taken = <<>> /\ left = Refusals /\ early = FALSE
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE
Go(w, a, m) == pc' = [pc EXCEPT ![w] = [at |-> a, m |-> m]]
\* the reading side (serialized by its own strand): put the message into the buffer, then look whether somebody is dispatching
Put == /\ rpc = "idle" /\ rd < N /\ rd' = rd + 1 /\ buf' = Append(buf, rd + 1) /\ rpc' = "look" /\ UNCHANGED <<held, disp, timer, jobs, busy, pc, taken, left, early>>
Look == /\ rpc = "look" /\ rpc' = "idle" /\ jobs' = (IF disp THEN jobs ELSE Append(jobs, "new")) /\ UNCHANGED <<rd, buf, held, disp, timer, busy, pc, taken, left, early>>
Fire == /\ timer = "on" /\ timer' = "off" /\ jobs' = Append(jobs, "retry") /\ UNCHANGED <<rd, rpc, buf, held, disp, busy, pc, taken, left, early>>
\* the dispatch strand
Take(w) == /\ pc[w].at = "idle" /\ jobs # <<>> /\ ~busy
           /\ busy' = TRUE /\ jobs' = Tail(jobs) /\ Go(w, Head(jobs), 0) /\ UNCHANGED <<rd, rpc, buf, held, disp, timer, taken, left, early>>
\* a job for new messages does nothing while a refused message waits for its retry
Begin(w) == \/ /\ pc[w].at = "new" /\ held # 0 /\ busy' = FALSE /\ Go(w, "idle", 0) /\ UNCHANGED <<rd, rpc, buf, held, disp, timer, jobs, taken, left, early>>
            \/ /\ pc[w].at = "new" /\ held = 0 /\ buf # <<>> /\ Go(w, "offer", Head(buf)) /\ buf' = Tail(buf) /\ disp' = TRUE /\ UNCHANGED <<rd, rpc, held, timer, jobs, busy, taken, left, early>>
            \/ /\ pc[w].at = "new" /\ held = 0 /\ buf = <<>> /\ busy' = FALSE /\ disp' = FALSE /\ Go(w, "idle", 0) /\ UNCHANGED <<rd, rpc, buf, held, timer, jobs, taken, left, early>>
            \/ /\ pc[w].at = "retry" /\ Go(w, "offer", held) /\ held' = 0 /\ early' = (early \/ timer = "on") /\ UNCHANGED <<rd, rpc, buf, disp, timer, jobs, busy, taken, left>>
End(w) == /\ pc[w].at = "offer" /\ busy' = FALSE /\ Go(w, "idle", 0)
          /\ \/ /\ taken' = Append(taken, pc[w].m) /\ disp' = FALSE /\ jobs' = Append(jobs, "new") /\ UNCHANGED <<held, timer, left>>
             \/ /\ left > 0 /\ left' = left - 1 /\ held' = pc[w].m /\ timer' = "on" /\ UNCHANGED <<taken, disp, jobs>>
          /\ UNCHANGED <<rd, rpc, buf, early>>
Step(t) == (t = "r" /\ (Put \/ Look)) \/ (t = "v" /\ Fire) \/ (t \in Workers /\ (Take(t) \/ Begin(t) \/ End(t)))
Next == \E t \in Workers \cup {"r", "v"} : Step(t) /\ Emit(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Workers \cup {"r", "v"} : WF_vars(Step(t))
InOrder == \A i \in 1..Len(taken) : taken[i] = i
OneAtATime == Cardinality({w \in Workers : pc[w].at # "idle"}) <= 1
NeverEarly == ~early /\ (held # 0 => (timer = "on" \/ (\E i \in 1..Len(jobs) : jobs[i] = "retry") \/ (\E w \in Workers : pc[w].at = "retry")))
Delivered == <>(Len(taken) = N)
=============================================================================
