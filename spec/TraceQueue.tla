----------------------------- MODULE TraceQueue -----------------------------
(* Is a recorded history of queue operations (ndjson, one operation with its observed result per line)
   a behaviour of Queue? *)
EXTENDS Queue, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<q, l>>
TInit == q = <<>> /\ l = 1
IsReset == l <= Len(Trace) /\ Trace[l].e = "reset" /\ q' = <<>> /\ l' = l + 1
IsOp == /\ l <= Len(Trace) /\ Trace[l].e = "op"
        /\ LET r == Apply(q, Trace[l].op) IN
             /\ r.res.out = Trace[l].res.out
             /\ ("obs" \in DOMAIN Trace[l].res) => (r.res.obs = Trace[l].res.obs)
             /\ q' = r.st
        /\ l' = l + 1
TNext == IsReset \/ IsOp
TSpec == TInit /\ [][TNext]_tvars
Progress == TLCSet(1, l - 1)
Matched == PrintT(<<"MATCHED", TLCGet(1)>>) /\ TLCGet(1) = Len(Trace)
=============================================================================
