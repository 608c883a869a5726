------------------------------ MODULE TraceLoop ------------------------------
(* One direction of a real link, several threads sending (call ... ret), the handlers of the peer taking or refusing messages (recv).
   Messages <<s, n>>: the n-th message of sender s.  A receiver g is one established link: a client which reconnects has one after another; only
   on the first of them (first = TRUE) nothing may be missing at the beginning.
     - only what was accepted (or may still turn out to be accepted) is delivered, once, and in the order of acceptance: a message whose sending
       began after another one had been accepted never overtakes it;
     - a refused message is offered again before anything else;
     - on one link nothing is skipped: what was delivered is a gapless prefix;
     - at the end of a link which was never broken everything accepted has been delivered.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Senders
VARIABLES pend, acc, bef, last, seen, stuck, l
vars == <<pend, acc, bef, last, seen, stuck, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Zero == [s \in Senders |-> 0]
Fresh == pend' = Zero /\ acc' = Zero /\ bef' = [s \in Senders |-> <<>>] /\ last' = <<>> /\ seen' = [s \in Senders |-> {}] /\ stuck' = <<>>
TInit == pend = Zero /\ acc = Zero /\ bef = [s \in Senders |-> <<>>] /\ last = <<>> /\ seen = [s \in Senders |-> {}] /\ stuck = <<>> /\ l = 1 /\ TLCSet(42, 1)
Ev(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
Get(f, g, d) == IF g \in DOMAIN f THEN f[g] ELSE d
Put(f, g, v) == [x \in DOMAIN f \cup {g} |-> IF x = g THEN v ELSE f[x]]
Reset == Ev("reset") /\ Fresh
Call == Ev("call") /\ LET s == Trace[l].s n == Trace[l].n IN
        /\ pend[s] = 0 /\ n = acc[s] + 1
        /\ pend' = [pend EXCEPT ![s] = n]
        /\ bef' = [bef EXCEPT ![s] = Append(SubSeq(@, 1, n - 1), acc)]
        /\ UNCHANGED <<acc, last, seen, stuck>>
Ret == Ev("ret") /\ LET s == Trace[l].s n == Trace[l].n IN
       /\ pend[s] = n /\ pend' = [pend EXCEPT ![s] = 0]
       /\ IF Trace[l].ok THEN acc' = [acc EXCEPT ![s] = n] ELSE n \notin seen[s] /\ UNCHANGED acc
       /\ UNCHANGED <<bef, last, seen, stuck>>
Recv == Ev("recv") /\ LET s == Trace[l].s n == Trace[l].n g == Trace[l].g la == Get(last, g, Zero) st == Get(stuck, g, <<>>) IN
        /\ n >= 1 /\ n \notin seen[s] /\ (n <= acc[s] \/ n = pend[s])
        /\ (st = <<>> \/ st = <<s, n>>)
        /\ (la[s] = n - 1 \/ (la[s] = 0 /\ ~Trace[l].first))
        /\ \A t \in Senders : la[t] >= bef[s][n][t] \/ (la[t] = 0 /\ ~Trace[l].first) \/ t = s
        /\ IF Trace[l].ok THEN /\ last' = Put(last, g, [la EXCEPT ![s] = n]) /\ seen' = [seen EXCEPT ![s] = @ \cup {n}] /\ stuck' = Put(stuck, g, <<>>)
                          ELSE stuck' = Put(stuck, g, <<s, n>>) /\ UNCHANGED <<last, seen>>
        /\ UNCHANGED <<pend, acc, bef>>
End == Ev("end") /\ (Trace[l].whole => \A s \in Senders : seen[s] = 1..acc[s]) /\ UNCHANGED <<pend, acc, bef, last, seen, stuck>>
TNext == Reset \/ Call \/ Ret \/ Recv \/ End
TSpec == TInit /\ [][TNext]_vars
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Matched == PrintT(<<"MATCHED", TLCGet(42) - 1>>) /\ TLCGet(42) - 1 = Len(Trace)
==============================================================================
