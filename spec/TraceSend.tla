------------------------------ MODULE TraceSend ------------------------------
(* Does a recorded history of one sending link (several threads) belong to the specification: messages are accepted in some
   order, priority ones go to the front of what is not being written, the transport gets batches from the head only, one
   write at a time, and nothing is pending once everything is quiet. Quiet moments of a link which is not established are exempt. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES buf, tk, wr, up, l   \* tk: taken from the buffer, about to be written
vars == <<buf, tk, wr, up, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == buf = <<>> /\ tk = <<>> /\ wr = <<>> /\ up = FALSE /\ l = 1
Ev(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
Reset == Ev("reset") /\ buf' = <<>> /\ tk' = <<>> /\ wr' = <<>> /\ up' = FALSE
Up == Ev("up") /\ up' = TRUE /\ UNCHANGED <<buf, tk, wr>>
Accept == Ev("enq") /\ buf' = (IF Trace[l].prior THEN Trace[l].ids \o buf ELSE buf \o Trace[l].ids) /\ UNCHANGED <<tk, wr, up>>
Take == Ev("take") /\ tk = <<>> /\ Trace[l].n <= Len(buf) /\ tk' = SubSeq(buf, 1, Trace[l].n) /\ buf' = SubSeq(buf, Trace[l].n + 1, Len(buf)) /\ UNCHANGED <<wr, up>>
Begin == Ev("begin") /\ wr = <<>> /\ tk # <<>> /\ tk = Trace[l].ids /\ wr' = tk /\ tk' = <<>> /\ UNCHANGED <<buf, up>>
Done == Ev("done") /\ wr # <<>> /\ wr' = <<>> /\ UNCHANGED <<buf, tk, up>>
Quiet == Ev("quiet") /\ wr = <<>> /\ tk = <<>> /\ (up => buf = <<>>) /\ Trace[l].pend = Len(buf) /\ UNCHANGED <<buf, tk, wr, up>>
TNext == Reset \/ Up \/ Accept \/ Take \/ Begin \/ Done \/ Quiet
TSpec == TInit /\ [][TNext]_vars
Progress == TLCSet(42, l)
Matched == PrintT(<<"MATCHED", TLCGet(42) - 1>>) /\ TLCGet(42) - 1 = Len(Trace)
=============================================================================
