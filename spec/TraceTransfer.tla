--------------------------- MODULE TraceTransfer ---------------------------
(* Does what happened on the links between the real file server and client belong to Transfer.tla, and do the files end as they must? A file is
   [id, size]: id names its content (-1: there is none, 0: empty, -2: something else). Events: a command, messages and raw data of a link, the end. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT MaxLinks
VARIABLES srv, cli, op, f, st, l,
          todo, outs \* the files of the command which are still to come, the outcomes up to now
vars == <<srv, cli, op, f, st, l, todo, outs>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Links == 0..MaxLinks - 1
Names == {"a", "b", "c", "dir/x"}
Missing == [id |-> -1, size |-> 0]
Empty == [id |-> 0, size |-> 0]
Idle == [p |-> "idle", x |-> 0, y |-> 0]
TInit == srv = [m \in Names |-> Missing] /\ cli = [m \in Names |-> Missing] /\ op = "" /\ f = "a" /\ st = [k \in Links |-> Idle] /\ l = 1 /\ todo = <<>> /\ outs = <<>> /\ TLCSet(42, 1)
Ev(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
E == Trace[l]
Reset == Ev("reset") /\ srv' = [m \in Names |-> Missing] /\ cli' = [m \in Names |-> Missing] /\ op' = "" /\ f' = "a" /\ st' = [k \in Links |-> Idle] /\ todo' = <<>> /\ outs' = <<>>
\* the files are changed from outside before a command
File == Ev("file") /\ op = "" /\ (IF E.side = "srv" THEN srv' = [srv EXCEPT ![E.f] = [id |-> E.id, size |-> E.size]] /\ UNCHANGED cli
                                 ELSE cli' = [cli EXCEPT ![E.f] = [id |-> E.id, size |-> E.size]] /\ UNCHANGED srv)
        /\ UNCHANGED <<op, f, st, todo, outs>>
Creatable(m) == m # "dir/x"
Opened(o, m) == IF o = "get" /\ Creatable(m) THEN [cli EXCEPT ![m] = Empty] ELSE cli
Cmd == Ev("cmd") /\ op = "" /\ op' = E.op /\ f' = E.fs[1] /\ todo' = Tail(E.fs) /\ outs' = <<>> /\ UNCHANGED <<srv, st>> /\ cli' = Opened(E.op, E.fs[1])
\* messages: the control phase
Set(k, p, x, y) == st' = [st EXCEPT ![k] = [p |-> p, x |-> x, y |-> y]]
Size(m) == IF srv[m].id = -1 THEN -1 ELSE srv[m].size
Ask0 == Ev("ask0") /\ op = "get" /\ E.f = f /\ st[E.k].p = "idle" /\ Set(E.k, "asked", 0, 0) /\ UNCHANGED <<srv, cli, op, f, todo, outs>>
Rep0 == Ev("rep0") /\ st[E.k].p = "asked" /\ E.size = Size(f) /\ Set(E.k, IF E.size > 0 THEN "told" ELSE "idle", 0, 0) /\ UNCHANGED <<srv, cli, op, f, todo, outs>>
Ask1 == Ev("ask1") /\ st[E.k].p = "told" /\ E.off >= 0 /\ E.len > 0 /\ E.off + E.len <= Size(f) /\ Set(E.k, "down", E.off, E.len) /\ UNCHANGED <<srv, cli, op, f, todo, outs>>
Ask10 == Ev("ask10") /\ op = "put" /\ E.f = f /\ st[E.k].p = "idle" /\ Set(E.k, "asked10", 0, 0) /\ UNCHANGED <<srv, cli, op, f, todo, outs>>
Rep10 == Ev("rep10") /\ st[E.k].p = "asked10" /\ E.f = f /\ E.ok = Creatable(f) /\ Set(E.k, "idle", 0, 0)
         /\ srv' = (IF E.ok THEN [srv EXCEPT ![f] = Empty] ELSE srv) /\ UNCHANGED <<cli, op, f, todo, outs>>
Ask11 == Ev("ask11") /\ op = "put" /\ E.f = f /\ st[E.k].p = "idle" /\ E.off >= 0 /\ E.len > 0 /\ E.off + E.len <= cli[f].size /\ srv[f].id # -1
         /\ Set(E.k, "asked11", E.off, E.len) /\ UNCHANGED <<srv, cli, op, f, todo, outs>>
Rep11 == Ev("rep11") /\ st[E.k].p = "asked11" /\ E.ok /\ E.len = st[E.k].y /\ Set(E.k, "up", st[E.k].x, E.len) /\ UNCHANGED <<srv, cli, op, f, todo, outs>>
\* the raw phase: as much as was agreed
Down == Ev("down") /\ st[E.k].p = "down" /\ E.n = st[E.k].y /\ Set(E.k, "idle", 0, 0) /\ UNCHANGED <<srv, cli, op, f, todo, outs>>
Up == Ev("up") /\ st[E.k].p = "up" /\ E.n = st[E.k].y /\ Set(E.k, "idle", 0, 0) /\ UNCHANGED <<srv, cli, op, f, todo, outs>>
Talk == Ev("talk") /\ op = "talk" /\ E.text = f /\ st[E.k].p = "idle" /\ op' = "talked" /\ UNCHANGED <<srv, cli, f, st, todo, outs>>
\* (a link whose range is empty does not answer what it was told)
\* the end: the outcome the client reports and the files on both sides
Id(s) == IF s.size = 0 THEN Empty ELSE s
Outcome == CASE op = "get" -> IF ~Creatable(f) THEN "failed" ELSE IF srv[f].id = -1 THEN "refused" ELSE "end"
             [] op = "put" -> IF ~Creatable(f) THEN "refused" ELSE IF cli[f].id = -1 THEN "refused" ELSE "end"
             [] op = "talked" -> "said" [] OTHER -> "?"
To == IF op = "get" /\ Outcome = "end" THEN Id(srv[f]) ELSE cli[f]
So == IF op = "put" /\ Outcome = "end" THEN Id(cli[f]) ELSE srv[f]
\* the next file of the command: after the client has got everything; what it has sent may still be on the way
Another == /\ op \in {"get", "put"} /\ todo # <<>> /\ \A k \in Links : st[k].p \in {"idle", "told", "up"}
           /\ st' = [k \in Links |-> IF st[k].p = "told" THEN Idle ELSE st[k]] /\ outs' = Append(outs, Outcome) /\ f' = Head(todo) /\ todo' = Tail(todo)
           /\ srv' = [srv EXCEPT ![f] = So] /\ cli' = [[cli EXCEPT ![f] = To] EXCEPT ![f'] = IF op = "get" /\ Creatable(f') THEN Empty ELSE @] /\ UNCHANGED <<op, l>>
After(s, x) == [id |-> x[1], size |-> x[2]] = s
Done == Ev("done") /\ op \notin {"", "talk"} /\ todo = <<>> /\ (\A k \in Links : st[k].p \in {"idle", "told"}) /\ E.outs = Append(outs, Outcome)
        /\ op' = "" /\ outs' = <<>> /\ UNCHANGED <<f, todo>> /\ st' = [k \in Links |-> Idle]
        /\ IF op = "talked" THEN UNCHANGED <<srv, cli>>
           ELSE /\ srv' = [srv EXCEPT ![f] = So] /\ cli' = [cli EXCEPT ![f] = To]
                /\ \A i \in 1..Len(E.fs) : After(cli'[E.fs[i]], E.cli[i]) /\ After(srv'[E.fs[i]], E.srv[i])
TNext == Reset \/ File \/ Cmd \/ Ask0 \/ Rep0 \/ Ask1 \/ Ask10 \/ Rep10 \/ Ask11 \/ Rep11 \/ Down \/ Up \/ Talk \/ Another \/ Done
TSpec == TInit /\ [][TNext]_vars
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Matched == PrintT(<<"MATCHED", TLCGet(42) - 1>>) /\ TLCGet(42) - 1 = Len(Trace)
==============================================================================
