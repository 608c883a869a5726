------------------------------ MODULE SyncRecv ------------------------------
(* The hand-over between synchronous receivers, the thread which has unpacked messages and a closing link: one mutex, one condition variable, a status.
   Each action is what one thread does while it holds the mutex. Notified threads look at the condition again, others sleep on. *)
EXTENDS Integers, FiniteSets
CONSTANTS Callers, Msgs
VARIABLES started, status, pc, res, noted, io, ionoted, temp, next, sync, async, dead
vars == <<started, status, pc, res, noted, io, ionoted, temp, next, sync, async, dead>>
Init == /\ started = TRUE /\ status = "none" /\ pc = [c \in Callers |-> "idle"] /\ res = [c \in Callers |-> "-"] /\ noted = [c \in Callers |-> FALSE]
        /\ io = "read" /\ ionoted = FALSE /\ temp = 0 /\ next = 1 /\ sync = {} /\ async = {} /\ dead = FALSE
Notify == noted' = [c \in Callers |-> pc[c] = "wait"]
\* a second receive is refused, a receive on a link which is not up returns at once
Call(c) == /\ pc[c] = "idle" /\ UNCHANGED <<started, io, ionoted, temp, next, sync, async, dead>>
           /\ IF status # "none" THEN res' = [res EXCEPT ![c] = "duplicate"] /\ pc' = [pc EXCEPT ![c] = "done"] /\ UNCHANGED <<status, noted>>
              ELSE IF ~started THEN res' = [res EXCEPT ![c] = "broken"] /\ pc' = [pc EXCEPT ![c] = "done"] /\ UNCHANGED <<status, noted>>
              ELSE status' = "requested" /\ pc' = [pc EXCEPT ![c] = "wait"] /\ noted' = [noted EXCEPT ![c] = FALSE] /\ UNCHANGED res
Leave(c, r) == res' = [res EXCEPT ![c] = r] /\ pc' = [pc EXCEPT ![c] = "done"] /\ status' = "none" /\ noted' = [noted EXCEPT ![c] = FALSE] /\ ionoted' = (io = "hand")
Wake(c) == /\ pc[c] = "wait" /\ noted[c] /\ UNCHANGED <<started, io, next, async, dead>>
           /\ IF started /\ status = "requested" THEN noted' = [noted EXCEPT ![c] = FALSE] /\ UNCHANGED <<status, pc, res, ionoted, temp, sync>>
              ELSE IF status = "responded" THEN Leave(c, "success") /\ sync' = sync \cup {temp} /\ temp' = 0
              ELSE Leave(c, "broken") /\ UNCHANGED <<temp, sync>>
Expire(c) == /\ pc[c] = "wait" /\ started /\ status = "requested" /\ Leave(c, "timeout") /\ UNCHANGED <<started, io, temp, next, sync, async, dead>>
Arrive == /\ io = "read" /\ started /\ next <= Msgs /\ next' = next + 1 /\ UNCHANGED <<started, pc, res, sync, dead>>
          /\ IF status = "requested" THEN status' = "responded" /\ temp' = next /\ io' = "hand" /\ ionoted' = FALSE /\ Notify /\ UNCHANGED async
             ELSE async' = async \cup {next} /\ UNCHANGED <<status, temp, io, ionoted, noted>>
\* the reader goes on when its messages have been taken, or (a receiver which got there too late) to the asynchronous handlers
IoWake == /\ io = "hand" /\ ionoted /\ UNCHANGED <<started, status, pc, res, noted, next, sync, dead>>
          /\ IF started /\ status = "responded" THEN ionoted' = FALSE /\ UNCHANGED <<io, temp, async>>
             ELSE /\ io' = "read" /\ ionoted' = FALSE
                  /\ IF status = "responded" \/ temp = 0 THEN UNCHANGED <<temp, async>> ELSE async' = async \cup {temp} /\ temp' = 0
Fail == io = "read" /\ started /\ status = "requested" /\ status' = "failed" /\ Notify /\ UNCHANGED <<started, pc, res, io, ionoted, temp, next, sync, async, dead>>
Close == /\ started /\ started' = FALSE /\ status' = (IF status = "requested" THEN "failed" ELSE status) /\ Notify /\ ionoted' = (io = "hand")
         /\ UNCHANGED <<pc, res, io, temp, next, sync, async, dead>>
Reopen == ~started /\ ~dead /\ io = "read" /\ temp = 0 /\ started' = TRUE /\ UNCHANGED <<status, pc, res, noted, io, ionoted, temp, next, sync, async, dead>>
Die == ~started /\ ~dead /\ dead' = TRUE /\ UNCHANGED <<started, status, pc, res, noted, io, ionoted, temp, next, sync, async>>
Again(c) == pc[c] = "done" /\ ~dead /\ pc' = [pc EXCEPT ![c] = "idle"] /\ res' = [res EXCEPT ![c] = "-"] /\ UNCHANGED <<started, status, noted, io, ionoted, temp, next, sync, async, dead>>
Next == \/ \E c \in Callers : Call(c) \/ Wake(c) \/ Expire(c) \/ Again(c)
        \/ Arrive \/ IoWake \/ Fail \/ Close \/ Reopen \/ Die
Spec == Init /\ [][Next]_vars /\ \A c \in Callers : WF_vars(Wake(c)) /\ WF_vars(IoWake)
OneWaiter == Cardinality({c \in Callers : pc[c] = "wait"}) <= 1
Once == sync \cap async = {} /\ 0 \notin sync \cup async
NothingLost == \A m \in 1 .. next - 1 : m \in sync \cup async \cup {temp}
WokenUp == \A c \in Callers : (pc[c] = "wait" /\ ~started) ~> (pc[c] # "wait" \/ started)
Returns == \A c \in Callers : (pc[c] = "wait" /\ dead) ~> pc[c] = "done"
=============================================================================
