------------------------------- MODULE Timer -------------------------------
(* The timers of one object. Time is discrete. The world advances d units at once, then everything that expired runs
   in the order of expiry; a callback follows a script which may stop, start, set or change its own timer or another
   one (also one which has expired already and only waits for its turn), and may take time itself. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Ids, Scripts,   \* Scripts[id]: the callbacks which may be set for that timer
          Ivs, MaxAdv, Aligned, EMIT
VARIABLES ts              \* ts[id] = [ex, run, iv, cb, due, seq]; due is relative to now; seq counts the starts within one step (0 at rest)
St == [ts |-> [i \in Ids |-> [ex |-> ts[i].ex, run |-> ts[i].run, iv |-> ts[i].iv, cb |-> ts[i].cb, due |-> ts[i].due]]]
None == [ex |-> FALSE, run |-> FALSE, iv |-> 0, cb |-> "", due |-> 0, seq |-> 0]
Other(i) == IF Cardinality(Ids) = 1 THEN i ELSE CHOOSE j \in Ids : j # i

DoStart(t, i) == IF t[i].ex THEN [t EXCEPT ![i].run = TRUE, ![i].due = t[i].iv, ![i].seq = @ + 1] ELSE t
DoStop(t, i) == IF t[i].run THEN [t EXCEPT ![i].run = FALSE, ![i].due = 0, ![i].seq = @ + 1] ELSE t
DoCreate(t, i, iv, cb) == [t EXCEPT ![i].ex = TRUE, ![i].iv = iv, ![i].cb = cb]
DoSet(t, i, iv, cb) == DoStart(DoCreate(t, i, iv, cb), i)
StopAll(t, except) == [i \in Ids |-> IF i = except \/ ~t[i].run THEN t[i] ELSE [t[i] EXCEPT !.run = FALSE, !.due = 0, !.seq = @ + 1]]
Elapse(t, d) == [i \in Ids |-> IF t[i].run THEN [t[i] EXCEPT !.due = @ - d] ELSE t[i]]

\* what script s of timer i does to the timers, and what it returns
Act(t, i, s) ==
  CASE s \in {"T", "F"} -> t
    [] s \in {"StopT", "StopF"} -> DoStop(t, i)
    [] s \in {"StartT", "StartF"} -> DoStart(t, i)
    [] s \in {"SetT", "SetF"} -> DoSet(t, i, 3, "T")
    [] s \in {"StopSetF"} -> DoSet(DoStop(t, i), i, 1, "F")
    [] s \in {"CbT", "CbF"} -> IF t[i].ex THEN [t EXCEPT ![i].cb = "F"] ELSE t
    [] s = "IvT" -> [t EXCEPT ![i].iv = 4]
    [] s = "StopOther" -> DoStop(t, Other(i))
    [] s = "SetOther" -> DoSet(t, Other(i), 2, "T")
    [] s = "StopSetOther" -> DoSet(DoStop(t, Other(i)), Other(i), 2, "T")
    [] s = "StartOther" -> DoStart(t, Other(i))
    [] s = "StopAllT" -> StopAll(t, -1)
    [] s = "StopExceptT" -> StopAll(t, i)
    [] s = "WaitT" -> Elapse(t, 1)
    [] OTHER -> t
Ret(s) == s \notin {"F", "StopF", "StartF", "SetF", "StopSetF", "CbF"}
Took(s) == IF s = "WaitT" THEN 1 ELSE 0

\* the callback of timer i ran; is it started again?
Fire(t, i) ==
  LET s == t[i].cb
      t1 == Act(t, i, s)
      again == Ret(s) /\ t1[i].run
      replaced == t1[i].seq # t[i].seq     \* stopped or started by itself meanwhile
  IN IF again THEN LET iv == IF Aligned /\ Took(s) > 0 THEN t1[i].iv - Took(s) ELSE t1[i].iv
                   IN [t1 EXCEPT ![i].due = iv, ![i].seq = @ + 1]
     ELSE IF replaced THEN t1
     ELSE [t1 EXCEPT ![i].run = FALSE, ![i].due = 0]

\* batch: sequence of <<timer, seq at expiry>>: a waiting one which has been stopped or started since is void
RECURSIVE RunBatch(_, _, _)
RunBatch(t, batch, log) ==
  IF batch = <<>> THEN <<t, log>>
  ELSE LET i == batch[1][1] IN
       IF t[i].seq # batch[1][2] THEN RunBatch(t, Tail(batch), log)
       ELSE RunBatch(Fire(t, i), Tail(batch), Append(log, [id |-> i, cb |-> t[i].cb]))
Expired(t) == {i \in Ids : t[i].run /\ t[i].due <= 0}
Sorted(t) == LET s == SetToSortSeq(Expired(t), LAMBDA x, y : t[x].due < t[y].due) IN [k \in DOMAIN s |-> <<s[k], t[s[k]].seq>>]
\* expiry order is only defined for different instants
Tie(t) == \E i, j \in Expired(t) : i # j /\ t[i].due = t[j].due
RECURSIVE Settle(_, _, _)
Settle(t, log, n) == IF Expired(t) = {} THEN <<t, log, FALSE>> ELSE IF n = 0 \/ Tie(t) THEN <<t, log, TRUE>>
                     ELSE LET r == RunBatch(t, Sorted(t), log) IN Settle(r[1], r[2], n - 1)

Clean(t) == [i \in Ids |-> [t[i] EXCEPT !.seq = 0]]
Running(t) == {i \in Ids : t[i].run}
Emit(op, t) == EMIT => PrintT(ToJson([pre |-> St, op |-> op, post |-> [ts |-> [i \in Ids |-> [ex |-> t[i].ex, run |-> t[i].run, iv |-> t[i].iv, cb |-> t[i].cb, due |-> t[i].due]]]]))
Res(log, t, ok) == [fired |-> log, run |-> SetToSortSeq(Running(t), <), ok |-> ok]
\* after any operation the world settles (nothing can have expired unless time advanced)
Op(k, i, iv, cb, t, ok) == /\ ts' = Clean(t) /\ Emit([k |-> k, id |-> i, iv |-> iv, cb |-> cb, res |-> Res(<<>>, t, ok)], Clean(t))
Advance(d) == LET r == Settle(Elapse(ts, d), <<>>, 6) IN
  /\ ~r[3]
  /\ ts' = Clean(r[1])
  /\ Emit([k |-> "adv", id |-> 0, iv |-> d, cb |-> "", res |-> Res(r[2], r[1], TRUE)], Clean(r[1]))

Init == ts = [i \in Ids |-> None] /\ (EMIT => PrintT(ToJson([init |-> St])))
Next ==
  \/ \E i \in Ids :
       \/ \E iv \in Ivs, cb \in Scripts[i] :
            \/ Op("set", i, iv, cb, DoSet(ts, i, iv, cb), TRUE)
            \/ Op("create", i, iv, cb, DoCreate(ts, i, iv, cb), TRUE)
       \/ Op("start", i, 0, "", DoStart(ts, i), ts[i].ex)
       \/ Op("stop", i, 0, "", DoStop(ts, i), TRUE)
       \/ Op("stopexcept", i, 0, "", StopAll(ts, i), TRUE)
       \/ \E iv \in Ivs : Op("iv", i, iv, "", IF ts[i].ex THEN [ts EXCEPT ![i].iv = iv] ELSE ts, ts[i].ex)
       \/ \E cb \in Scripts[i] : Op("cb", i, 0, cb, IF ts[i].ex THEN [ts EXCEPT ![i].cb = cb] ELSE ts, ts[i].ex)
  \/ Op("stopall", 0, 0, "", StopAll(ts, -1), TRUE)
  \/ \E d \in 1..MaxAdv : Advance(d)
Spec == Init /\ [][Next]_ts
\* the design: whatever runs is due in the future, a timer which never was set never runs
Sane == \A i \in Ids : (ts[i].run => ts[i].ex /\ ts[i].due > 0) /\ (~ts[i].run => ts[i].due = 0)
\* a stopped timer does not fire before it is started again: firing requires run in the state before (or a start within the step)
=============================================================================
