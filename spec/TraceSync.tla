------------------------------ MODULE TraceSync ------------------------------
(* Threads which send and receive synchronously on one link. A history is a sequence of calls and returns of these threads and of what happens to
   the link: connected (up), about to break, closed, messages written, popped or discarded (gone), reported by on_msg_send (told), fed by the peer,
   handled asynchronously (msg). A synchronous send succeeds only after its message has been written, fails only if the message is refused (and then it is
   never written), gone or the link breaks, times out only after its duration; a receive gets messages once, which nobody else gets. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES out, up, brk, written, dead, popped, owed, told, queued, fed, got, l
vars == <<out, up, brk, written, dead, popped, owed, told, queued, fed, got, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
None == <<>>
Fresh == /\ out = [c \in 0 .. 3 |-> None] /\ up = FALSE /\ brk = FALSE /\ written = {} /\ dead = {} /\ popped = {} /\ owed = {} /\ told = {} /\ queued = {} /\ fed = {} /\ got = {}
TInit == Fresh /\ l = 1
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Ids == {E.ids[i] : i \in 1 .. Len(E.ids)}
Active(c) == out[c] # None
Recving(c) == Active(c) /\ out[c].k = "recv"
Reset == /\ Ev("reset") /\ out' = [c \in 0 .. 3 |-> None] /\ up' = FALSE /\ brk' = FALSE /\ written' = {} /\ dead' = {} /\ popped' = {} /\ owed' = {} /\ told' = {} /\ queued' = {} /\ fed' = {} /\ got' = {}
Up == Ev("up") /\ up' = TRUE /\ UNCHANGED <<out, brk, written, dead, popped, owed, told, queued, fed, got>>
\* whatever is under way may fail from here on
Doom(o) == [c \in DOMAIN o |-> IF o[c] = None THEN None ELSE [o[c] EXCEPT !.na = TRUE, !.dup = 0, !.must = {}]]
Break == Ev("break") /\ brk' = TRUE /\ out' = Doom(out) /\ queued' = {} /\ fed' = got /\ UNCHANGED <<up, written, dead, popped, owed, told, got>>
Closed == Ev("closed") /\ brk' = FALSE /\ up' = FALSE /\ out' = Doom(out) /\ UNCHANGED <<written, dead, popped, owed, told, queued, fed, got>>
Call == /\ Ev("call") /\ ~Active(E.c)
        /\ LET other == E.k = "recv" /\ \E c \in DOMAIN out : Recving(c)
               o == [c \in DOMAIN out |-> IF E.k = "recv" /\ Recving(c) THEN [out[c] EXCEPT !.conc = TRUE] ELSE out[c]]
           IN out' = [o EXCEPT ![E.c] = [k |-> E.k, ids |-> Ids, dur |-> E.dur, t |-> E.t, over |-> E.over, na |-> brk \/ ~up, dup |-> IF brk \/ ~up THEN 0 ELSE E.dup, must |-> {}, feeds |-> 0, conc |-> other]]
        /\ UNCHANGED <<up, brk, written, dead, popped, owed, told, queued, fed, got>>
Elapsed(o) == o.dur > 0 /\ E.t - o.t >= o.dur
Gone(c) == out' = [out EXCEPT ![c] = None]
\* what can't have been queued any more is never written; a message which was not refused and not hit by a broken link must turn out to have been
\* popped or discarded (the caller may return before the thread which did that)
SendRet == /\ Ev("ret") /\ Active(E.c) /\ out[E.c].k \in {"send", "async"} /\ Gone(E.c)
           /\ LET o == out[E.c] IN
              \/ /\ E.r = "S" /\ o.k = "send" /\ o.ids \subseteq written /\ UNCHANGED <<dead, owed, queued>>
              \/ /\ E.r = "N" /\ ~(o.ids \subseteq written)
                 /\ \/ /\ o.na /\ o.k = "send" /\ UNCHANGED <<dead, owed, queued>>
                    \/ /\ o.k = "send" /\ o.ids \subseteq popped /\ UNCHANGED <<dead, owed, queued>>
                    \/ /\ o.ids \cap (written \cup dead) = {} /\ dead' = dead \cup o.ids /\ owed' = (IF o.over THEN owed \cup o.ids ELSE owed) /\ UNCHANGED queued
              \/ /\ E.r = "T" /\ o.k = "send" /\ Elapsed(o)
                 /\ \/ \E i \in o.ids : \A p \in told : p[1] # i
                    \/ \E p \in told : p[1] \in o.ids /\ p[2] >= o.t + o.dur
                 /\ queued' = (IF o.na THEN queued ELSE queued \cup o.ids) /\ UNCHANGED <<dead, owed>>
              \/ /\ E.r = "A" /\ o.k = "async" /\ queued' = (IF o.na THEN queued ELSE queued \cup o.ids) /\ UNCHANGED <<dead, owed>>
           /\ UNCHANGED <<up, brk, written, popped, told, fed, got>>
Rising(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
RecvRet == /\ Ev("ret") /\ Recving(E.c) /\ Gone(E.c)
           /\ LET o == out[E.c] IN
              /\ o.dup = 1 => E.r = "D"
              /\ \/ E.r = "S" /\ Rising(E.ids) /\ Ids \cap got = {} /\ (o.must # {} => Ids = o.must)
                 \/ E.r = "D" /\ o.conc /\ E.ids = <<>>
                 \/ E.r = "N" /\ o.na /\ E.ids = <<>>
                 \/ E.r = "T" /\ Elapsed(o) /\ E.ids = <<>>
           /\ got' = got \cup Ids /\ fed' = fed \cup Ids
           /\ UNCHANGED <<up, brk, written, dead, popped, owed, told, queued>>
Written == Ev("written") /\ Ids \cap (written \cup dead) = {} /\ written' = written \cup Ids /\ UNCHANGED <<out, up, brk, dead, popped, owed, told, queued, fed, got>>
Goes == /\ Ev("gone") /\ Ids \cap (written \cup popped) = {} /\ dead' = dead \cup Ids /\ popped' = popped \cup Ids
        /\ UNCHANGED <<out, up, brk, written, owed, told, queued, fed, got>>
Told == Ev("told") /\ Ids \subseteq written /\ told' = told \cup {<<i, E.t>> : i \in Ids} /\ UNCHANGED <<out, up, brk, written, dead, popped, owed, queued, fed, got>>
Feed == /\ Ev("feed") /\ fed' = fed \cup Ids
        /\ out' = [c \in DOMAIN out |-> IF out[c] = None THEN None
                   ELSE [out[c] EXCEPT !.dup = 0, !.feeds = IF c = E.w THEN @ + 1 ELSE @, !.must = IF c = E.w /\ out[c].feeds = 0 /\ ~out[c].na THEN Ids ELSE @]]
        /\ UNCHANGED <<up, brk, written, dead, popped, owed, told, queued, got>>
Msg == /\ Ev("msg") /\ Ids \cap got = {} /\ got' = (got \cup Ids) \ {-1} /\ fed' = (fed \cup Ids) \ {-1}
       /\ \A c \in DOMAIN out : ~(Recving(c) /\ Ids \cap out[c].must # {} /\ (out[c].dur = 0 \/ E.t < out[c].t + out[c].dur))
       /\ UNCHANGED <<out, up, brk, written, dead, popped, owed, told, queued>>
Quiet == /\ Ev("quiet")
         /\ E.ready => /\ \A c \in Ids : ~(Active(c) /\ out[c].k = "send")
                       /\ E.pend = 0 => queued \subseteq written \cup dead
         /\ owed \subseteq popped
         /\ up /\ ~brk => fed \subseteq got
         /\ UNCHANGED <<out, up, brk, written, dead, popped, owed, told, queued, fed, got>>
End == Ev("end") /\ (\A c \in DOMAIN out : ~Active(c)) /\ UNCHANGED <<out, up, brk, written, dead, popped, owed, told, queued, fed, got>>
TNext == Reset \/ Up \/ Break \/ Closed \/ Call \/ SendRet \/ RecvRet \/ Written \/ Goes \/ Told \/ Feed \/ Msg \/ Quiet \/ End
TSpec == TInit /\ [][TNext]_vars
Progress == TLCSet(42, l)
Matched == PrintT(<<"MATCHED", TLCGet(42) - 1>>) /\ TLCGet(42) - 1 = Len(Trace)
=============================================================================
