------------------------------ MODULE LinkRecv ------------------------------
(* The receiving half of one stream link: reads, the receive buffer with its backpressure, and the offering of messages to
   the handler in every dispatch mode. Time is counted in units; a read always carries whole messages (segmentation is the
   matter of Framing). Decisions of the handlers are part of the operation: k = how many offers it accepts in this step before
   it refuses one; batch mode: ds = how many messages it takes each time it is called, until it takes none or nothing is left. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Lens,           \* body lengths; 0 is a heartbeat
          N, MaxRead,     \* messages held at most, messages per read at most
          Limit, RIv, HIv,\* recv_buf_size, msg_resuming_interval, msg_handling_interval (in units)
          Mode,           \* "single" | "batch"
          Sync, Passive,  \* ST_ASIO_SYNC_DISPATCH, ST_ASIO_PASSIVE_RECV
          Ops, EMIT
VARIABLES buf, disp, hold, reading, rdue, hdue
vars == <<buf, disp, hold, reading, rdue, hdue>>
\* disp: the message being re-offered (single mode); hold: the handler refused and the retry is pending; rdue/hdue: units until the timers fire, 0: not running
St == [buf |-> buf, disp |-> disp, hold |-> hold, reading |-> reading, rdue |-> rdue, hdue |-> hdue]
Sum(s) == FoldSeq(LAMBDA m, a : m.len + a, 0, s)
IdsOf(s) == [i \in 1..Len(s) |-> s[i].id]
Used == {buf[i].id : i \in 1..Len(buf)} \cup {disp[i].id : i \in 1..Len(disp)}
RECURSIVE Fresh(_, _)
Fresh(n, S) == IF n = 0 THEN <<>> ELSE LET x == CHOOSE i \in 1..(N + MaxRead) : i \notin S /\ \A j \in 1..(i - 1) : j \in S IN <<x>> \o Fresh(n - 1, S \cup {x})

\* offers: <<ids offered at once, how many of them were taken>>
Off(ids, t) == [ids |-> ids, t |-> t]
\* the dispatcher runs until nothing is left or the handler refuses. Returns the set of possible outcomes
RECURSIVE Single(_, _)
Single(q, k) == \* k: how many offers are accepted
    IF q = <<>> THEN {[offers |-> <<>>, left |-> <<>>, refused |-> FALSE, k |-> 0]}
    ELSE IF k = 0 THEN {[offers |-> <<Off(<<Head(q).id>>, 0)>>, left |-> q, refused |-> TRUE, k |-> 0]}
    ELSE {[offers |-> <<Off(<<Head(q).id>>, 1)>> \o r.offers, left |-> r.left, refused |-> r.refused, k |-> r.k] : r \in Single(Tail(q), k - 1)}
RECURSIVE BatchRun(_)
BatchRun(q) == IF q = <<>> THEN {[offers |-> <<>>, left |-> <<>>, refused |-> FALSE, ds |-> <<>>]}
    ELSE {[offers |-> <<Off(IdsOf(q), 0)>>, left |-> q, refused |-> TRUE, ds |-> <<0>>]} \cup
         UNION {{[offers |-> <<Off(IdsOf(q), d)>> \o r.offers, left |-> r.left, refused |-> r.refused, ds |-> <<d>> \o r.ds] : r \in BatchRun(SubSeq(q, d + 1, Len(q)))} : d \in 1..Len(q)}
\* all outcomes of running the dispatcher over q: [offers, left, refused, script]
Runs(q) == IF Mode = "batch" THEN {[offers |-> r.offers, left |-> r.left, refused |-> r.refused, s |-> r.ds] : r \in BatchRun(q)}
           ELSE UNION {{[offers |-> r.offers, left |-> r.left, refused |-> r.refused, s |-> <<k>>] : r \in Single(q, k)} : k \in 0..Len(q)}
NoRun(q) == [offers |-> <<>>, left |-> q, refused |-> FALSE, s |-> <<>>]

Obs == [bytes |-> Sum(buf'), avail |-> Sum(buf') < Limit, reading |-> reading', idle |-> rdue' > 0]
R0 == [offers |-> <<>>, sync |-> <<>>, popped |-> <<>>, dm |-> 0, db |-> 0]
Emit(k, a, r) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> a, res |-> r @@ Obs], post |-> St'])) ELSE TRUE
\* what the dispatcher leaves behind
Leave(r) == /\ disp' = (IF r.refused /\ Mode = "single" THEN <<r.left[1]>> ELSE <<>>)
            /\ buf' = (IF r.refused /\ Mode = "single" THEN Tail(r.left) ELSE r.left)
            /\ hold' = r.refused

Init == /\ buf = <<>> /\ disp = <<>> /\ hold = FALSE /\ reading = TRUE /\ rdue = 0 /\ hdue = 0
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE

\* one read brings the messages ls (heartbeats: 0). sj: how many the synchronous handler takes
SeqsUpTo(S, n) == UNION {[1..i -> S] : i \in 1..n}
Read == /\ "read" \in Ops /\ reading
        /\ \E ls \in SeqsUpTo(Lens, MaxRead) :
           LET bodies == SelectSeq(ls, LAMBDA x : x > 0)
               ids == Fresh(Len(bodies), Used)
               ms == [i \in 1..Len(bodies) |-> [id |-> ids[i], len |-> bodies[i]]]
               \* passive mode: an empty message instead of nothing
               q0(sj) == SubSeq(ms, sj + 1, Len(ms))
               blank == Passive /\ ~Sync /\ ms = <<>>
           IN /\ Cardinality(Used) + Len(ms) <= N
              /\ \E sj \in (IF Sync THEN 0..Len(ms) ELSE {0}) :
                 LET add == IF blank THEN <<[id |-> 0, len |-> 0]>> ELSE q0(sj)
                     full == buf \o add
                     called == Sync /\ (Passive \/ ms # <<>>)
                     room == Sum(full) < Limit
                 IN /\ (blank => ~hold)
                    /\ \E r \in (IF hold THEN {NoRun(full)} ELSE Runs(full)) :
                       /\ (blank => ~r.refused)
                       /\ IF hold THEN buf' = full /\ UNCHANGED <<disp, hold, hdue>> ELSE Leave(r) /\ hdue' = (IF r.refused THEN HIv ELSE 0)
                       /\ reading' = (IF Passive THEN FALSE ELSE room) /\ rdue' = (IF Passive \/ room THEN 0 ELSE RIv)
                       /\ Emit("read", [ls |-> ls, ids |-> ids, sj |-> sj, s |-> r.s],
                               [R0 EXCEPT !.offers = r.offers, !.sync = IF called THEN <<Off(ids, sj)>> ELSE <<>>, !.dm = Len(ms), !.db = Sum(ms)])
\* a unit of time passes
Tick == /\ "tick" \in Ops /\ (rdue > 0 \/ hdue > 0) /\ ~(rdue = 1 /\ hdue = 1)
        /\ IF hdue = 1
           THEN \E r \in Runs(disp \o buf) :
                 /\ Leave(r) /\ hdue' = (IF r.refused THEN HIv ELSE 0)
                 /\ reading' = reading /\ rdue' = (IF rdue > 0 THEN rdue - 1 ELSE 0)
                 /\ Emit("tick", [s |-> r.s], [R0 EXCEPT !.offers = r.offers])
           ELSE /\ hdue' = (IF hdue > 0 THEN hdue - 1 ELSE 0) /\ UNCHANGED <<buf, disp, hold>>
                /\ IF rdue = 1 THEN (IF Sum(buf) < Limit THEN reading' = TRUE /\ rdue' = 0 ELSE rdue' = RIv /\ UNCHANGED reading)
                   ELSE rdue' = (IF rdue > 0 THEN rdue - 1 ELSE 0) /\ UNCHANGED reading
                /\ Emit("tick", [s |-> <<>>], R0)
\* the application takes pending messages away, or asks for a read (passive mode)
Pop == /\ "pop" \in Ops /\ buf' = (IF buf = <<>> THEN buf ELSE Tail(buf)) /\ UNCHANGED <<disp, hold, reading, rdue, hdue>>
       /\ Emit("pop", [s |-> <<>>], [R0 EXCEPT !.popped = IF buf = <<>> THEN <<>> ELSE <<buf[1].id>>])
PopAll == /\ "popall" \in Ops /\ buf' = <<>> /\ UNCHANGED <<disp, hold, reading, rdue, hdue>>
          /\ Emit("popall", [s |-> <<>>], [R0 EXCEPT !.popped = IdsOf(buf)])
Ask == /\ "ask" \in Ops /\ Passive /\ reading' = TRUE /\ UNCHANGED <<buf, disp, hold, rdue, hdue>>
       /\ Emit("ask", [s |-> <<>>], R0)
Next == Read \/ Tick \/ Pop \/ PopAll \/ Ask
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick)

NoDup == Len(buf) + Len(disp) = Cardinality(Used) \/ 0 \in Used
\* C09: at most the limit plus one read (and the message being offered) is held; not reading means the resume timer runs
MaxLen == CHOOSE m \in Lens : \A x \in Lens : x <= m
Bounded == ~Passive => Sum(buf) < Limit + MaxRead * MaxLen
Resumes == ~Passive => (reading <=> rdue = 0)
\* C10: a refused message always has its retry scheduled, and nothing is left unoffered otherwise
Retried == (hold <=> hdue > 0) /\ (~hold => buf = <<>> /\ disp = <<>>)
=============================================================================
