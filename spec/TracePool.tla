------------------------------ MODULE TracePool ------------------------------
(* Is a recorded history of an object pool used by several threads linearizable: every call takes effect at one moment
   between its invocation and its answer, as in Pool.tla. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Objs, Threads, Limit
VARIABLES live, id, rem, pend, l
vars == <<live, id, rem, pend, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Idle == [op |-> "", o |-> 0, id |-> 0, done |-> TRUE, res |-> 0]
TInit == live = {} /\ id = [o \in Objs |-> o] /\ rem = {} /\ pend = [t \in Threads |-> Idle] /\ l = 1 /\ TLCSet(42, 1)
Ev(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
Reset == Ev("reset") /\ live' = {} /\ id' = [o \in Objs |-> o] /\ rem' = {} /\ pend' = [t \in Threads |-> Idle]
Begin == Ev("begin") /\ live' = {Trace[l].live[i] : i \in 1..Len(Trace[l].live)} /\ UNCHANGED <<id, rem, pend>>
Call == Ev("call") /\ pend' = [pend EXCEPT ![Trace[l].t] = [op |-> Trace[l].op, o |-> Trace[l].o, id |-> Trace[l].id, done |-> FALSE, res |-> 0]] /\ UNCHANGED <<live, id, rem>>
Ret == Ev("ret") /\ pend[Trace[l].t].done /\ pend[Trace[l].t].res = Trace[l].res /\ pend' = [pend EXCEPT ![Trace[l].t] = Idle] /\ UNCHANGED <<live, id, rem>>
With(i) == {o \in live : id[o] = i}
Lin == \E t \in Threads : LET p == pend[t] IN /\ ~p.done /\ l' = l
       /\ LET R(r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = r] IN
          CASE p.op = "add" -> IF Cardinality(live) < Limit /\ With(id[p.o]) = {} THEN live' = live \cup {p.o} /\ R(1) /\ UNCHANGED <<id, rem>> ELSE R(0) /\ UNCHANGED <<live, id, rem>>
            [] p.op = "del" -> IF p.o \in live THEN live' = live \ {p.o} /\ rem' = rem \cup {p.o} /\ R(1) /\ UNCHANGED id ELSE R(0) /\ UNCHANGED <<live, id, rem>>
            [] p.op = "delid" -> IF With(p.id) # {} THEN live' = live \ With(p.id) /\ rem' = rem \cup With(p.id) /\ R(1) /\ UNCHANGED id ELSE R(0) /\ UNCHANGED <<live, id, rem>>
            [] p.op = "init" -> IF id[p.o] = p.id THEN R(1) /\ UNCHANGED <<live, id, rem>>
                                ELSE IF p.o \in live /\ With(p.id) = {} THEN id' = [id EXCEPT ![p.o] = p.id] /\ R(1) /\ UNCHANGED <<live, rem>> ELSE R(0) /\ UNCHANGED <<live, id, rem>>
            [] p.op = "find" -> R(IF With(p.id) = {} THEN 0 ELSE CHOOSE o \in With(p.id) : TRUE) /\ UNCHANGED <<live, id, rem>>
            [] p.op = "size" -> R(Cardinality(live)) /\ UNCHANGED <<live, id, rem>>
\* nobody is calling: what can be seen
Rest == Ev("rest") /\ \A t \in Threads : pend[t].done
        /\ {<<Trace[l].live[i][1], Trace[l].live[i][2]>> : i \in 1..Len(Trace[l].live)} = {<<o, id[o]>> : o \in live} /\ Len(Trace[l].live) = Cardinality(live)
        /\ {Trace[l].rem[i] : i \in 1..Len(Trace[l].rem)} = rem /\ Len(Trace[l].rem) = Cardinality(rem)
        /\ UNCHANGED <<live, id, rem, pend>>
TNext == Reset \/ Begin \/ Call \/ Ret \/ Lin \/ Rest
TSpec == TInit /\ [][TNext]_vars
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Matched == PrintT(<<"MATCHED", TLCGet(42) - 1>>) /\ TLCGet(42) - 1 = Len(Trace)
==============================================================================
