------------------------------ MODULE SyncSend ------------------------------
(* The promises of synchronous sends: who resolves them and when. A caller puts its message into the send buffer, looks whether the link has been closed
   for good meanwhile, and waits. The transport completes or fails what it took, the application can take pending messages away, closing
   resolves what was being written at once, and what is still pending if the link isn't started again. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Callers, Restarts
VARIABLES up, closing, obsolete, buf, wr, pc, res, put, left
vars == <<up, closing, obsolete, buf, wr, pc, res, put, left>>
Init == up = TRUE /\ closing = FALSE /\ obsolete = FALSE /\ buf = <<>> /\ wr = {} /\ pc = [c \in Callers |-> "idle"] /\ res = [c \in Callers |-> "-"] /\ put = {} /\ left = Restarts
Ran(s) == {s[i] : i \in 1 .. Len(s)}
\* set: at most once
Resolve(S, r) == res' = [c \in Callers |-> IF c \in S /\ res[c] = "-" THEN r ELSE res[c]]
Enqueue(c, front) == /\ pc[c] = "idle" /\ pc' = [pc EXCEPT ![c] = "check"] /\ buf' = (IF front THEN <<c>> \o buf ELSE Append(buf, c)) /\ put' = put \cup {c}
                     /\ UNCHANGED <<up, closing, obsolete, wr, res, left>>
Check(c) == /\ pc[c] = "check" /\ pc' = [pc EXCEPT ![c] = "wait"] /\ UNCHANGED <<up, closing, obsolete, buf, wr, put, left>>
            /\ IF obsolete /\ ~up THEN Resolve(Ran(buf), "N") ELSE UNCHANGED res
Take == up /\ wr = {} /\ buf # <<>> /\ \E n \in 1 .. Len(buf) : wr' = Ran(SubSeq(buf, 1, n)) /\ buf' = SubSeq(buf, n + 1, Len(buf)) /\ UNCHANGED <<up, closing, obsolete, pc, res, put, left>>
Done == wr # {} /\ ~closing /\ Resolve(wr, "S") /\ wr' = {} /\ UNCHANGED <<up, closing, obsolete, buf, pc, put, left>>
Failed == wr # {} /\ closing /\ Resolve(wr, "N") /\ wr' = {} /\ UNCHANGED <<up, closing, obsolete, buf, pc, put, left>>
Pop == \E n \in 1 .. Len(buf) : Resolve(Ran(SubSeq(buf, 1, n)), "N") /\ buf' = SubSeq(buf, n + 1, Len(buf)) /\ UNCHANGED <<up, closing, obsolete, wr, pc, put, left>>
Close == up /\ up' = FALSE /\ closing' = TRUE /\ UNCHANGED <<obsolete, buf, wr, pc, res, put, left>>
\* on_close comes after all handlers; obsolete is set before the messages which are left are resolved
Closed == closing /\ wr = {} /\ closing' = FALSE /\ obsolete' = TRUE /\ UNCHANGED <<up, buf, wr, pc, res, put, left>>
Abandon == obsolete /\ ~up /\ Resolve(Ran(buf), "N") /\ UNCHANGED <<up, closing, obsolete, buf, wr, pc, put, left>>
Restart == obsolete /\ ~up /\ left > 0 /\ left' = left - 1 /\ up' = TRUE /\ obsolete' = FALSE /\ UNCHANGED <<closing, buf, wr, pc, res, put>>
Return(c) == pc[c] = "wait" /\ res[c] # "-" /\ pc' = [pc EXCEPT ![c] = "done"] /\ UNCHANGED <<up, closing, obsolete, buf, wr, res, put, left>>
Expire(c) == pc[c] = "wait" /\ res[c] = "-" /\ pc' = [pc EXCEPT ![c] = "late"] /\ UNCHANGED <<up, closing, obsolete, buf, wr, res, put, left>>
Next == \/ \E c \in Callers : Enqueue(c, TRUE) \/ Enqueue(c, FALSE) \/ Check(c) \/ Return(c) \/ Expire(c)
        \/ Take \/ Done \/ Failed \/ Pop \/ Close \/ Closed \/ Abandon \/ Restart
Fair == /\ \A c \in Callers : WF_vars(Check(c)) /\ WF_vars(Return(c))
        /\ WF_vars(Take) /\ WF_vars(Done) /\ WF_vars(Failed) /\ WF_vars(Closed)
Spec == Init /\ [][Next]_vars /\ Fair /\ WF_vars(Abandon)
Truth == [][\A c \in Callers : (res[c] = "-" /\ res'[c] = "S") => c \in wr]_vars
Kept == [][\A c \in Callers : (c \in Ran(buf) /\ c \notin Ran(buf')) => (c \in wr' \/ res'[c] = "N")]_vars
NoHang == \A c \in Callers : pc[c] = "wait" ~> pc[c] # "wait"
=============================================================================
