------------------------------- MODULE Wakeup -------------------------------
(* Who hands a queued message to the transport: senders, the starting thread, the workers running the I/O strand and the
   transport itself, at the grain of one access to shared data per step. TLC checks that no interleaving leaves a message
   behind; its behaviours are the schedules under which the driver runs the real threads. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Senders, PerSender, Workers, Early, EMIT     \* Early: the link is established while senders are active
VARIABLES pc, left, buf, ready, sending, jobs, busy, wr, sent, started
vars == <<pc, left, buf, ready, sending, jobs, busy, wr, sent, started>>
St == [pc |-> pc, left |-> left, buf |-> buf, ready |-> ready, sending |-> sending, jobs |-> jobs, busy |-> busy, wr |-> wr, sent |-> sent, started |-> started]
Emit(t) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> t], post |-> St'])) ELSE TRUE

Threads == Senders \cup Workers \cup {"start", "transport"}
Init == /\ pc = [t \in Threads |-> "idle"] /\ left = [s \in Senders |-> PerSender]
        /\ buf = 0 /\ ready = ~Early /\ sending = FALSE /\ jobs = <<>> /\ busy = FALSE /\ wr = 0 /\ sent = 0 /\ started = ~Early
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE
Go(t, l) == pc' = [pc EXCEPT ![t] = l]

\* a sender: queue, look at the link, look at the flag and perhaps ask the strand
Enqueue(s) == /\ s \in Senders /\ pc[s] = "idle" /\ left[s] > 0
              /\ buf' = buf + 1 /\ left' = [left EXCEPT ![s] = @ - 1] /\ Go(s, "look") /\ UNCHANGED <<ready, sending, jobs, busy, wr, sent, started>>
Look1(s) == /\ s \in Senders \cup {"start"} /\ pc[s] = "look"
            /\ Go(s, IF ready THEN "ask" ELSE "idle") /\ UNCHANGED <<left, buf, ready, sending, jobs, busy, wr, sent, started>>
Ask(s) == /\ s \in Senders \cup {"start"} /\ pc[s] = "ask"
          /\ jobs' = (IF sending THEN jobs ELSE Append(jobs, "send")) /\ Go(s, "idle") /\ UNCHANGED <<left, buf, ready, sending, busy, wr, sent, started>>
StartLink == /\ ~started /\ pc["start"] = "idle"
             /\ started' = TRUE /\ ready' = TRUE /\ Go("start", "look") /\ UNCHANGED <<left, buf, sending, jobs, busy, wr, sent>>
\* the strand
Take(w) == /\ w \in Workers /\ pc[w] = "idle" /\ jobs # <<>> /\ ~busy
           /\ busy' = TRUE /\ jobs' = Tail(jobs) /\ Go(w, IF Head(jobs) = "send" THEN "test" ELSE "move")
           /\ UNCHANGED <<left, buf, ready, sending, wr, sent, started>>
Test(w) == /\ w \in Workers /\ pc[w] = "test"
           /\ IF sending THEN busy' = FALSE /\ Go(w, "idle") /\ UNCHANGED sending ELSE sending' = TRUE /\ Go(w, "move") /\ UNCHANGED busy
           /\ UNCHANGED <<left, buf, ready, jobs, wr, sent, started>>
Move(w) == /\ w \in Workers /\ pc[w] = "move"
           /\ IF buf > 0 THEN wr' = buf /\ buf' = 0 /\ busy' = FALSE /\ Go(w, "idle") ELSE Go(w, "clear") /\ UNCHANGED <<wr, buf, busy>>
           /\ UNCHANGED <<left, ready, sending, jobs, sent, started>>
Clear(w) == /\ w \in Workers /\ pc[w] = "clear"
            /\ sending' = FALSE /\ Go(w, "again") /\ UNCHANGED <<left, buf, ready, jobs, busy, wr, sent, started>>
Again(w) == /\ w \in Workers /\ pc[w] = "again"
            /\ IF buf > 0 THEN Go(w, "test") /\ UNCHANGED busy ELSE Go(w, "idle") /\ busy' = FALSE
            /\ UNCHANGED <<left, buf, ready, sending, jobs, wr, sent, started>>
Written == /\ wr > 0 /\ sent' = sent + wr /\ wr' = 0 /\ jobs' = Append(jobs, "done") /\ UNCHANGED <<pc, left, buf, ready, sending, busy, started>>

Step(t) == Enqueue(t) \/ Look1(t) \/ Ask(t) \/ (t = "start" /\ StartLink) \/ Take(t) \/ Test(t) \/ Move(t) \/ Clear(t) \/ Again(t) \/ (t = "transport" /\ Written)
Next == \E t \in Threads : Step(t) /\ Emit(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

OneWrite == wr > 0 => sending
Quiet == \A t \in Threads : ~ENABLED Step(t)
NothingLeft == Quiet => (buf = 0 /\ wr = 0 /\ sent = Cardinality(Senders) * PerSender)
Delivered == <>(sent = Cardinality(Senders) * PerSender)
=============================================================================
