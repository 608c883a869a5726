---------------------------- MODULE TraceBuffer ----------------------------
(* recorded histories of basic_buffer with sizes around its capacity steps *)
EXTENDS Buffer, IOUtils, Integers
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
tvars == <<a, b, l>>
TInit == a = <<>> /\ b = <<>> /\ l = 1
Match(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : s[i] = Unk \/ s[i] = t[i]
\* unspecified bytes become what was observed
Step == /\ l <= Len(Trace) /\ Ev.e = "op" /\ l' = l + 1
        /\ LET op == Op(Ev.k, Ev.src, Ev.pos, Ev.n, Ev.ch) r == R(op) IN
           /\ Legal(op)
           /\ r.throws = Ev.throws
           /\ Match(r.v, Ev.a) /\ a' = Ev.a
           /\ Ev.b = (IF Ev.k = "swap" THEN a ELSE b) /\ b' = Ev.b
Reset == l <= Len(Trace) /\ Ev.e = "reset" /\ l' = l + 1 /\ a' = <<>> /\ b' = <<>>
TNext == Step \/ Reset
TSpec == TInit /\ [][TNext]_tvars
Progress == TLCSet(1, l - 1)
Matched == PrintT(<<"MATCHED", TLCGet(1)>>) /\ TLCGet(1) = Len(Trace)
=============================================================================
