------------------------------ MODULE TraceTimer ------------------------------
(* One timer, used by two threads.  Once: the callback ends the timer, every start leads to exactly one more expiration.  Otherwise: periodic until
   stopped; nothing fires after "stopped" (the stop has returned and no thread is inside the timer any more).                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Once
VARIABLES run, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == run = FALSE /\ l = 1 /\ TLCSet(42, 1)
Ev(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
TNext == \/ Ev("reset") /\ run' = FALSE
         \/ Ev("start") /\ ~run /\ run' = TRUE
         \/ Ev("fire") /\ run /\ run' = ~Once
         \/ Ev("stopped") /\ run /\ run' = FALSE
TSpec == TInit /\ [][TNext]_<<run, l>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Matched == PrintT(<<"MATCHED", TLCGet(42) - 1>>) /\ TLCGet(42) - 1 = Len(Trace)
===============================================================================
