-------------------------------- MODULE Pump --------------------------------
(* A service pump: its services (registered, started, removed), its threads, and the cycles of starting and stopping it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS S,        \* services
          Ctx,      \* number of io_contexts
          Avoid,    \* the pump doesn't end by itself when it has nothing to do
          Dec,      \* threads can be removed at run time
          MaxThr, Ops, EMIT
VARIABLES st, reg, on, idle, fail, ids, thr
\* st: off, on, run (a thread is inside run_service); reg: registered services in order; on: started ones; idle: those of them which have nothing to do any more; fail: those whose init fails; thr: threads per io_context
vars == <<st, reg, on, idle, fail, ids, thr>>
St == [st |-> st, reg |-> reg, on |-> on, idle |-> idle, fail |-> fail, ids |-> ids, thr |-> thr]
Range_(s) == {s[i] : i \in 1 .. Len(s)}
Alive(t, o) == t # "off" /\ (Avoid \/ o # {})
None == [i \in 1 .. Ctx |-> 0]
Zero == [init |-> {}, uninit |-> {}, final |-> {}, freed |-> {}]
R0 == [ret |-> 1, init |-> {}, uninit |-> {}, final |-> {}, freed |-> {}]
SetSeq(s) == SetToSortSeq(s, <)
Obs == [started |-> st' # "off", thr |-> IF Alive(st', on' \ idle') THEN SortSeq(thr', <) ELSE None, on |-> SetSeq(on'), alive |-> Alive(st', on' \ idle')]
J(r) == [ret |-> r.ret, init |-> SetSeq(r.init), uninit |-> SetSeq(r.uninit), final |-> SetSeq(r.final), freed |-> SetSeq(r.freed)]
Emit(k, a, r) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> a, res |-> J(r) @@ Obs], post |-> St'])) ELSE TRUE
Init == /\ st = "off" /\ reg = <<>> /\ on = {} /\ idle = {} /\ fail = {} /\ ids = [i \in 1 .. S |-> 0] /\ thr = None
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE
Sum(t) == FoldSeq(LAMBDA a, b : a + b, 0, t)
RECURSIVE Spread(_, _)
\* each new thread goes to the io_context with the fewest threads
Spread(t, n) == IF n = 0 THEN t ELSE LET m == CHOOSE i \in 1 .. Ctx : (\A j \in 1 .. Ctx : t[i] <= t[j]) /\ (\A j \in 1 .. (i - 1) : t[j] # t[i]) IN Spread([t EXCEPT ![m] = @ + 1], n - 1)
\* once nothing is left to do, the threads end by themselves, and with them a pump which is run
Ended(t, o, i) == t = "run" /\ ~Alive(t, o \ i)
\* after a step which would leave the services o started, i of them idle: a pump which is run has ended, its services are stopped
Settle(t, o, i) == IF Ended(t, o, i) THEN st' = "off" /\ on' = {} /\ idle' = {} /\ thr' = None ELSE st' = t /\ on' = o /\ idle' = i /\ thr' = (IF Alive(t, o \ i) THEN thr ELSE None)
Res(t, o, i, r, un, in) == [R0 EXCEPT !.init = in, !.uninit = un \cup (IF Ended(t, o, i) THEN o ELSE {}), !.final = IF Ended(t, o, i) THEN Range_(r) ELSE {}]
Create == \E i \in 1 .. S : i \notin Range_(reg) /\ (\A j \in 1 .. (i - 1) : j \in Range_(reg)) /\ reg' = Append(reg, i) /\ UNCHANGED <<st, on, idle, ids, thr>> /\ fail' = fail \ {i}
          /\ Emit("create", <<i>>, R0)
FailInit == \E i \in Range_(reg) \ on : "fail" \in Ops /\ fail' = (IF i \in fail THEN fail \ {i} ELSE fail \cup {i}) /\ UNCHANGED <<st, reg, on, idle, ids, thr>> /\ Emit("fail", <<i>>, R0)
StartAll(n, run, k, a) ==
  LET o == Range_(reg) \ fail  t == IF run THEN "run" ELSE "on" IN
  IF st # "off" \/ n < Ctx THEN UNCHANGED vars /\ Emit(k, a, R0)
  ELSE /\ UNCHANGED <<reg, fail, ids>>
       /\ IF Ended(t, o, {}) THEN Settle(t, o, {}) ELSE st' = t /\ on' = o /\ idle' = {} /\ thr' = (IF Alive(t, o) THEN Spread(None, n) ELSE None)
       /\ Emit(k, a, Res(t, o, {}, reg, {}, Range_(reg)))
Start == \E n \in 0 .. MaxThr : ("start" \in Ops) /\ (st = "off" \/ n = 1) /\ StartAll(n, FALSE, "start", <<n>>)
\* threads are taken away before they have begun
StartDel == \E n \in 2 .. MaxThr : \E d \in 1 .. (n - 1) : /\ "adddel" \in Ops /\ Dec /\ Ctx = 1 /\ st = "off" /\ (Avoid \/ Range_(reg) \ fail # {})
            /\ on' = Range_(reg) \ fail /\ idle' = {} /\ st' = "on" /\ thr' = <<n - d>> /\ UNCHANGED <<reg, fail, ids>> /\ Emit("startdel", <<n, d>>, [R0 EXCEPT !.init = Range_(reg)])
Run == \E n \in 1 .. MaxThr : "run" \in Ops /\ st # "run" /\ n >= Ctx /\ StartAll(n, TRUE, "run", <<n>>)
Stop == /\ ("start" \in Ops) /\ st # "run"
        /\ IF st = "off" THEN UNCHANGED vars /\ Emit("stop", <<>>, R0)
           ELSE /\ st' = "off" /\ on' = {} /\ idle' = {} /\ thr' = None /\ UNCHANGED <<reg, fail, ids>> /\ Emit("stop", <<>>, [R0 EXCEPT !.uninit = on, !.final = Range_(reg)])
End == /\ "run" \in Ops /\ st = "run" /\ st' = "off" /\ on' = {} /\ idle' = {} /\ thr' = None /\ UNCHANGED <<reg, fail, ids>> /\ Emit("end", <<>>, [R0 EXCEPT !.uninit = on, !.final = Range_(reg)])
\* a service which is added later has to be started by the application; that starts the whole pump when it is off
StartSvc == \E i \in Range_(reg) : /\ "svc" \in Ops /\ (st # "off" => Alive(st, on \ idle))
            /\ IF st = "off" THEN StartAll(Ctx, FALSE, "startsvc", <<i>>)
               ELSE /\ on' = (IF i \in fail THEN on ELSE on \cup {i}) /\ UNCHANGED <<st, reg, idle, fail, ids, thr>> /\ Emit("startsvc", <<i>>, [R0 EXCEPT !.init = {i} \ on])
StopSvc == \E i \in Range_(reg) : /\ "svc" \in Ops /\ Settle(st, on \ {i}, idle \ {i}) /\ UNCHANGED <<reg, fail, ids>>
           /\ Emit("stopsvc", <<i>>, Res(st, on \ {i}, idle \ {i}, reg, {i} \cap on, {}))
\* a service has done all it had to do
Idle == \E i \in on \ idle : /\ st # "off" /\ "idle" \in Ops /\ Settle(st, on, idle \cup {i}) /\ UNCHANGED <<reg, fail, ids>> /\ Emit("idle", <<i>>, Res(st, on, idle \cup {i}, reg, {}, {}))
\* removed by pointer, by id (0: has none), or with the object
RemoveSvc == \E i \in Range_(reg), how \in {"ptr", "id", "delete"} :
          LET left == SelectSeq(reg, LAMBDA x : x # i)  r == Res(st, on \ {i}, idle \ {i}, left, {i} \cap on, {}) IN
          /\ "remove" \in Ops /\ (how = "id" => ids[i] # 0 /\ \A j \in Range_(reg) : ids[j] = ids[i] => j = i) /\ (how = "delete" => i \notin on)
          /\ reg' = left /\ Settle(st, on \ {i}, idle \ {i}) /\ fail' = fail \ {i} /\ ids' = [ids EXCEPT ![i] = 0]
          /\ Emit("remove", <<i, how>>, [r EXCEPT !.freed = {i}])
Clear == /\ "remove" \in Ops /\ reg # <<>> /\ reg' = <<>> /\ Settle(st, {}, {}) /\ fail' = {} /\ ids' = [i \in 1 .. S |-> 0]
         /\ Emit("clear", <<>>, [R0 EXCEPT !.uninit = on, !.freed = Range_(reg)])
SetId == \E i \in Range_(reg), n \in 0 .. 2 : "id" \in Ops /\ ids[i] # n /\ ids' = [ids EXCEPT ![i] = n] /\ UNCHANGED <<st, reg, on, idle, fail, thr>> /\ Emit("setid", <<i, n>>, R0)
First(n) == LET c == {k \in 1 .. Len(reg) : ids[reg[k]] = n} IN IF c = {} THEN 0 ELSE reg[CHOOSE k \in c : \A m \in c : k <= m]
Find == \E n \in 0 .. 2 : "id" \in Ops /\ UNCHANGED vars /\ Emit("find", <<n>>, [R0 EXCEPT !.ret = First(n)])
\* (when the thread inside run_service may have been taken away, it waits for the others: no thread can be added then; nor is it counted when the io_context of a new thread is chosen)
Add == \E k \in 1 .. 2 : "thr" \in Ops /\ Alive(st, on \ idle) /\ (st = "on" \/ (~Dec /\ Ctx = 1)) /\ Sum(thr) + k <= MaxThr /\ thr' = Spread(thr, k) /\ UNCHANGED <<st, reg, on, idle, fail, ids>> /\ Emit("add", <<k>>, R0)
\* the last thread stays, whatever is asked for; early: the new threads have not begun yet
Del == \E k \in 1 .. 3 : "thr" \in Ops /\ Dec /\ Ctx = 1 /\ Alive(st, on \ idle) /\ thr' = <<IF thr[1] - k < 1 THEN 1 ELSE thr[1] - k>> /\ UNCHANGED <<st, reg, on, idle, fail, ids>> /\ Emit("del", <<k>>, R0)
AddDel == \E k \in 1 .. 3, d \in 1 .. 3 : LET n == thr[1] + k - d IN
          "adddel" \in Ops /\ Dec /\ Ctx = 1 /\ Alive(st, on \ idle) /\ st = "on" /\ thr[1] + k <= MaxThr /\ d <= k /\ thr' = <<n>> /\ UNCHANGED <<st, reg, on, idle, fail, ids>> /\ Emit("adddel", <<k, d>>, R0)
\* a handler throws: the thread goes on, or ends when the application says so
Throw == \E go \in BOOLEAN : "throw" \in Ops /\ Ctx = 1 /\ Alive(st, on \ idle) /\ (~go => thr[1] > 1) /\ (~go /\ st = "run" => FALSE) /\ thr' = (IF go THEN thr ELSE <<thr[1] - 1>>) /\ UNCHANGED <<st, reg, on, idle, fail, ids>> /\ Emit("throw", <<go>>, R0)
Next == Idle \/ StartDel \/ Create \/ FailInit \/ Start \/ Run \/ Stop \/ End \/ StartSvc \/ StopSvc \/ RemoveSvc \/ Clear \/ SetId \/ Find \/ Add \/ Del \/ AddDel \/ Throw
Spec == Init /\ [][Next]_vars
TypeOK == /\ on \subseteq Range_(reg) /\ (st = "off" => on = {}) /\ (Alive(st, on \ idle) => \A i \in 1 .. Ctx : thr[i] >= 1)
=============================================================================
