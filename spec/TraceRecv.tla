------------------------------ MODULE TraceRecv ------------------------------
(* Does a recorded history of one receiving link (several workers) belong to the specification: messages are offered in the
   order in which they were read, one call of the handler at a time; what it refuses is offered again first and not before
   the interval is over; everything has been accepted once all is quiet. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES pend, cur, due, now, l   \* cur: the ids being offered; due: when the refused ones may be offered again
vars == <<pend, cur, due, now, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == pend = <<>> /\ cur = <<>> /\ due = 0 /\ now = 0 /\ l = 1
Ev(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
Reset == Ev("reset") /\ pend' = <<>> /\ cur' = <<>> /\ due' = 0 /\ now' = 0
Feed == Ev("feed") /\ pend' = pend \o Trace[l].ids /\ UNCHANGED <<cur, due, now>>
Tick == Ev("tick") /\ now' = now + 1 /\ UNCHANGED <<pend, cur, due>>
Offer == /\ Ev("offer") /\ cur = <<>> /\ Trace[l].ids # <<>> /\ now >= due
         /\ Len(Trace[l].ids) <= Len(pend) /\ Trace[l].ids = SubSeq(pend, 1, Len(Trace[l].ids))
         /\ cur' = Trace[l].ids /\ UNCHANGED <<pend, due, now>>
Ret == /\ Ev("ret") /\ cur # <<>> /\ Trace[l].n <= Len(cur)
       /\ pend' = SubSeq(pend, Trace[l].n + 1, Len(pend)) /\ cur' = <<>> /\ now' = now
       /\ due' = (IF Trace[l].n = 0 THEN now + Trace[l].hiv ELSE 0)
Quiet == Ev("quiet") /\ pend = <<>> /\ cur = <<>> /\ Trace[l].pend = 0 /\ UNCHANGED <<pend, cur, due, now>>
TNext == Reset \/ Feed \/ Tick \/ Offer \/ Ret \/ Quiet
TSpec == TInit /\ [][TNext]_vars
Progress == TLCSet(42, l)
Matched == PrintT(<<"MATCHED", TLCGet(42) - 1>>) /\ TLCGet(42) - 1 = Len(Trace)
=============================================================================
