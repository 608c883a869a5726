------------------------------ MODULE TraceRefs ------------------------------
(* References of each io_context recorded after every step of Refs.tla: is there a placement of the objects, each new one on an io_context with
   the fewest references at that moment, which explains them? The parts of a step happen in any order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt
CONSTANTS Ctx0, Reuse
VARIABLES refs, at, pre, todo, dead, known, l
\* refs: references of each io_context; at: where each object is and what it holds; pre: io_contexts of the prepared sockets (how many each); todo: parts still to happen
vars == <<refs, at, pre, todo, dead, known, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Zero(n) == [i \in 1 .. n |-> 0]
NoKeys == [k \in {} |-> 0]
Nothing == [drop |-> {}, conn |-> {}, place |-> {}, back |-> {}, add |-> 0, rem |-> FALSE, wait |-> 0]
TInit == refs = Zero(Ctx0) /\ at = NoKeys /\ pre = Zero(Ctx0) /\ todo = Nothing /\ dead = {} /\ known = FALSE /\ l = 1 /\ TLCSet(42, 1)
Ev(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
R(s) == {s[i] : i \in 1 .. Len(s)}
Reset == Ev("reset") /\ refs' = Zero(Ctx0) /\ at' = NoKeys /\ pre' = Zero(Ctx0) /\ todo' = Nothing /\ dead' = {} /\ known' = FALSE
Begin == LET t == Trace[l] IN Ev("op") /\ todo = Nothing
         /\ todo' = [drop |-> R(t.drop), conn |-> R(t.conn), place |-> R(t.place), back |-> R(t.back), add |-> IF t.pre > 0 THEN t.pre ELSE 0, rem |-> t.pre < 0, wait |-> 0]
         /\ (IF t.k # "" THEN at' = [at EXCEPT ![t.k].n = @ + t.n] /\ refs' = [refs EXCEPT ![at[t.k].c] = @ + t.n] ELSE UNCHANGED <<at, refs>>)
         /\ UNCHANGED <<pre, dead, known>>
Least(c) == \A d \in 1 .. Len(refs) : refs[c] <= refs[d]
Spot(c, kind) == Least(c) \/ (Reuse /\ <<kind, c>> \in dead)
Kind(k) == CASE SubSeq(k, 1, 1) = "o" -> "s" [] k \in {"sp", "sa", "mp", "up", "sc"} -> k [] OTHER -> SubSeq(k, 1, 1)
\* the parts of a step
Drop == \E k \in todo.drop : /\ k \in DOMAIN at /\ todo' = [todo EXCEPT !.drop = @ \ {k}] /\ refs' = [refs EXCEPT ![at[k].c] = @ - at[k].n]
        /\ at' = (IF k \in {"sc"} THEN [at EXCEPT ![k].n = 0] ELSE [x \in DOMAIN at \ {k} |-> at[x]])
        /\ dead' = dead \cup {<<Kind(k), at[k].c>>} /\ UNCHANGED pre
Place == \E p \in todo.place : \E c \in 1 .. Len(refs) : /\ Spot(c, Kind(p[1])) /\ todo' = [todo EXCEPT !.place = @ \ {p}] /\ refs' = [refs EXCEPT ![c] = @ + p[2]]
         /\ at' = (p[1] :> [c |-> c, n |-> p[2]]) @@ at /\ UNCHANGED <<pre, dead>>
Back == \E k \in todo.back : /\ todo' = [todo EXCEPT !.back = @ \ {k}] /\ refs' = [refs EXCEPT ![at[k].c] = @ + 1] /\ at' = [at EXCEPT ![k].n = 1] /\ UNCHANGED <<pre, dead>>
\* sockets prepared for accepting
Prep == \E c \in 1 .. Len(refs) : /\ (todo.add > 0 \/ todo.wait > 0) /\ Spot(c, "s") /\ pre' = [pre EXCEPT ![c] = @ + 1] /\ refs' = [refs EXCEPT ![c] = @ + 1]
        /\ todo' = (IF todo.add > 0 THEN [todo EXCEPT !.add = @ - 1] ELSE [todo EXCEPT !.wait = @ - 1]) /\ UNCHANGED <<at, dead>>
Unprep == todo.rem /\ todo' = [todo EXCEPT !.rem = FALSE] /\ refs' = [c \in 1 .. Len(refs) |-> refs[c] - pre[c]] /\ pre' = Zero(Len(refs))
          /\ dead' = dead \cup {<<"s", c>> : c \in {d \in 1 .. Len(refs) : pre[d] > 0}} /\ UNCHANGED at
Conn == \E k \in todo.conn : \E c \in 1 .. Len(refs) : /\ todo.add = 0 /\ pre[c] > 0 /\ ("s" \o k) \notin DOMAIN at /\ todo' = [todo EXCEPT !.conn = @ \ {k}, !.wait = @ + 1]
        /\ pre' = [pre EXCEPT ![c] = @ - 1] /\ at' = (("s" \o k) :> [c |-> c, n |-> 1]) @@ at /\ UNCHANGED <<refs, dead>>
Part == (Drop \/ Place \/ Back \/ Prep \/ Unprep \/ Conn) /\ UNCHANGED <<known, l>>
\* a new connection may be accepted before the old one is known to be gone
Again == \E k \in todo.conn : LET s == "s" \o k IN \E c \in 1 .. Len(refs) :
         /\ s \in todo.drop /\ s \in DOMAIN at /\ todo.add = 0 /\ pre[c] > 0 /\ ("old " \o s) \notin DOMAIN at
         /\ todo' = [todo EXCEPT !.conn = @ \ {k}, !.wait = @ + 1, !.drop = (@ \ {s}) \cup {"old " \o s}] /\ pre' = [pre EXCEPT ![c] = @ - 1]
         /\ at' = (s :> [c |-> c, n |-> 1]) @@ (("old " \o s) :> at[s]) @@ at /\ UNCHANGED <<refs, dead, known, l>>
More == Ev("ctx") /\ refs' = Append(refs, 0) /\ pre' = Append(pre, 0) /\ UNCHANGED <<at, todo, dead, known>>
See == /\ Ev("refs") /\ todo = Nothing /\ Trace[l].v = refs /\ UNCHANGED <<refs, at, pre, todo, dead, known>>
TNext == Reset \/ Begin \/ Part \/ Again \/ More \/ See
TSpec == TInit /\ [][TNext]_vars
Progress == TLCSet(42, IF l > TLCGet(42) THEN l ELSE TLCGet(42))
Matched == PrintT(<<"MATCHED", TLCGet(42) - 1>>) /\ TLCGet(42) - 1 = Len(Trace)
==============================================================================
