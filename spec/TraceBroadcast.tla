---------------------------- MODULE TraceBroadcast ----------------------------
(* Does a recorded history of threads which broadcast to the links of a container, add, remove and use links belong to the specification:
   a broadcast reaches each link at most once, while it is under way, and only links which are in the container at some time then; it reaches every
   link which is in the container all the time; calls to add, remove and send take effect at one moment. fin: what each link had been given in the end, in order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Objs, Threads
VARIABLES live, fin, pend, l
vars == <<live, fin, pend, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Idle == [op |-> "", x |-> 0, m |-> 0, ok |-> FALSE, must |-> {}, may |-> {}, done |-> {}]
TInit == live = {} /\ fin = [o \in Objs |-> <<>>] /\ pend = [t \in Threads |-> Idle] /\ l = 1 /\ TLCSet(42, 1)
Ev(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
Reset == Ev("reset") /\ live' = {} /\ fin' = [o \in Objs |-> <<>>] /\ pend' = [t \in Threads |-> Idle]
Begin == Ev("begin") /\ live' = {Trace[l].live[i] : i \in 1..Len(Trace[l].live)} /\ fin' = [o \in Objs |-> Trace[l].fin[o]] /\ UNCHANGED pend
Call == Ev("call") /\ pend' = [pend EXCEPT ![Trace[l].t] = [op |-> Trace[l].op, x |-> Trace[l].x, m |-> Trace[l].m, ok |-> FALSE, must |-> live, may |-> live, done |-> {}]] /\ UNCHANGED <<live, fin>>
Ret == LET t == Trace[l].t p == pend[Trace[l].t] IN
       Ev("ret") /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<live, fin>>
       /\ IF p.op = "bc" THEN p.must \subseteq p.done ELSE p.ok
\* what happens between the call and the return
Next1(o, m) == fin[o] /= <<>> /\ Head(fin[o]) = m
Given(t, o) == fin' = [fin EXCEPT ![o] = Tail(@)] /\ pend' = [pend EXCEPT ![t].done = @ \cup {o}, ![t].ok = TRUE]
Reach == \E t \in Threads : LET p == pend[t] IN
         /\ l' = l /\ UNCHANGED live
         /\ \/ p.op = "bc" /\ \E o \in p.may \ p.done : Next1(o, p.m) /\ Given(t, o)
            \/ p.op = "send" /\ ~p.ok /\ Next1(p.x, p.m) /\ Given(t, p.x)
Change == \E t \in Threads : LET p == pend[t] IN
          /\ l' = l /\ UNCHANGED fin /\ ~p.ok
          /\ \/ p.op = "add" /\ live' = live \cup {p.x} /\ pend' = [u \in Threads |-> IF u = t THEN [pend[u] EXCEPT !.ok = TRUE] ELSE [pend[u] EXCEPT !.may = @ \cup {p.x}]]
             \/ p.op = "del" /\ live' = live \ {p.x} /\ pend' = [u \in Threads |-> IF u = t THEN [pend[u] EXCEPT !.ok = TRUE] ELSE [pend[u] EXCEPT !.must = @ \ {p.x}]]
Rest == Ev("rest") /\ \A t \in Threads : pend[t].op = ""
        /\ \A o \in Objs : fin[o] = <<>> \* nothing else has been given to it
        /\ UNCHANGED <<live, fin, pend>>
TNext == Reset \/ Begin \/ Call \/ Ret \/ Reach \/ Change \/ Rest
TSpec == TInit /\ [][TNext]_vars
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Matched == PrintT(<<"MATCHED", TLCGet(42) - 1>>) /\ TLCGet(42) - 1 = Len(Trace)
===============================================================================
