------------------------------ MODULE TraceSecure -----------------------------
(* One endpoint object of a link with Stages handshakes before the link (0: plain, 1: ssl or websocket, 2: websocket over ssl), possibly used for
   several links one after another.  A link is reported (up) only after all handshakes succeeded, once; every started object closes (down)
   exactly once; nothing is left open at the end.                                                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Stages
VARIABLES st, l                          \* number of handshakes done; Stages + 1: up; -1: handshake failed; -2: not started
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == st = -2 /\ l = 1 /\ TLCSet(42, 1)
Ev(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
TNext == \/ Ev("reset") /\ st' = -2
         \/ Ev("start") /\ st = -2 /\ st' = 0
         \/ Ev("hs") /\ st \in 0..(Stages - 1) /\ Trace[l].n = st + 1 /\ st' = IF Trace[l].ok THEN st + 1 ELSE -1
         \/ Ev("up") /\ st = Stages /\ st' = Stages + 1
         \/ Ev("down") /\ st # -2 /\ st' = -2
         \/ Ev("end") /\ st = -2 /\ st' = st
TSpec == TInit /\ [][TNext]_<<st, l>>
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Matched == PrintT(<<"MATCHED", TLCGet(42) - 1>>) /\ TLCGet(42) - 1 = Len(Trace)
===============================================================================
