------------------------------ MODULE LinkLife ------------------------------
(* The life of one stream link, client (Client = TRUE, with its reconnecting) or server side: starting, connecting, failing,
   working, graceful and forced shutdown, closing, closed, started again or recycled. Callbacks are logged: connect, prep (the
   reconnect hook), msg, offer (a message the handler refuses), recv_error, unpack_error, send_error, timeout (graceful shutdown
   took too long), held (an asynchronous call of the application), close. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Client, Track,  \* Track: the close notification waits for the last asynchronous call (ST_ASIO_DELAY_CLOSE = 0)
          N,      \* N: messages waiting for being sent at most
          Delays,         \* what the reconnect hook may return (ms; -1: give up)
          Ops, EMIT
VARIABLES ph, rec, hold, wr, buf, half, ref, gr, nb
\* ph: new, wait (for the next connect), connecting, delay (a connect failed), up, grace (graceful shutdown), closing, closed
\* ref: a refused message waits for its retry (0: no), 2: one more message behind it; gr: graceful shutdown ended this link;
\* nb: the local address cannot be bound at present
vars == <<ph, rec, hold, wr, buf, half, ref, gr, nb>>
St == [ph |-> ph, rec |-> rec, hold |-> hold, wr |-> wr, buf |-> buf, half |-> half, ref |-> ref, gr |-> gr, nb |-> nb]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Used == RangeOf(buf) \cup RangeOf(wr)
NewId == CHOOSE i \in 1..(N + 1) : i \notin Used /\ \A j \in 1..(i - 1) : j \in Used

Live(p) == p \in {"wait", "connecting", "delay", "up", "grace"}
Obs == [started |-> Live(ph'), conn |-> ph' = "up", connecting |-> ph' = "connecting", reading |-> ph' \in {"up", "grace"}, writing |-> wr' # <<>>,
        broken |-> ph' \in {"new", "closed"}, obsolete |-> ph' = "closed" /\ ~rec', rec |-> rec', timers |-> ph' \notin {"closing", "closed"}]
R0 == [log |-> <<>>, may |-> <<>>, sent |-> <<>>, err |-> <<>>, dels |-> 0]
Emit(k, a, r) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> a, res |-> r @@ Obs], post |-> St'])) ELSE TRUE
L(s) == [R0 EXCEPT !.log = s]

Init == /\ ph = "new" /\ rec = Client /\ hold = FALSE /\ wr = <<>> /\ buf = <<>> /\ half = FALSE /\ ref = 0 /\ gr = FALSE /\ nb = FALSE
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE

\* the link is established: what was queued is handed to the transport, reading starts
Up == /\ ph' = "up" /\ wr' = buf /\ buf' = <<>> /\ half' = FALSE /\ gr' = FALSE
Begin(r) == IF Client THEN ph' = (IF ~nb THEN "wait" ELSE IF r THEN "delay" ELSE ph) /\ UNCHANGED <<wr, buf, half, gr>> ELSE Up
StartLog == IF Client THEN <<>> ELSE <<"connect">>
Start == /\ "start" \in Ops
         /\ IF ph \in {"new", "closed"} THEN Begin(rec) /\ UNCHANGED <<rec, hold, ref>> /\ Emit("start", <<>>, L(StartLog))
            ELSE UNCHANGED vars /\ Emit("start", <<>>, R0)
\* the pool recycles a closed object
Reset == /\ "reset" \in Ops /\ ph = "closed" /\ ~hold
         /\ ph' = "new" /\ rec' = Client /\ wr' = <<>> /\ buf' = <<>> /\ half' = FALSE /\ ref' = 0 /\ gr' = FALSE /\ UNCHANGED hold
         /\ Emit("reset", <<>>, R0)

\* the link goes down: outstanding operations are aborted
Down == /\ ph' = "closing" /\ wr' = <<>> /\ half' = FALSE /\ UNCHANGED <<buf, ref, hold>>
DownLog == (IF ph \in {"up", "grace"} THEN <<"recv_error">> ELSE <<>>) \o (IF wr # <<>> THEN <<"send_error">> ELSE <<>>)
ForceRes(pre) == [R0 EXCEPT !.log = pre \o DownLog, !.err = wr]
Force == /\ "force" \in Ops
         /\ \E r \in (IF Client THEN BOOLEAN ELSE {FALSE}) :
            /\ rec' = r
            /\ IF ph \in {"new", "closed"} THEN /\ (IF r THEN Begin(r) ELSE UNCHANGED <<ph, wr, buf, half, gr>>) /\ UNCHANGED <<hold, ref>> /\ Emit("force", <<r>>, R0)
               ELSE IF ph = "closing" THEN UNCHANGED <<ph, hold, wr, buf, half, ref, gr>> /\ Emit("force", <<r>>, R0)
               ELSE Down /\ gr' = gr /\ Emit("force", <<r>>, ForceRes(<<>>))
Graceful == /\ "graceful" \in Ops
            /\ \E r \in (IF Client THEN BOOLEAN ELSE {FALSE}) :
               /\ rec' = r
               /\ IF ph \in {"new", "closed"} THEN /\ (IF r THEN Begin(r) ELSE UNCHANGED <<ph, wr, buf, half, gr>>) /\ UNCHANGED <<hold, ref>> /\ Emit("graceful", <<r>>, R0)
                  ELSE IF ph = "up" THEN /\ ph' = "grace" /\ wr' = <<>> /\ gr' = TRUE /\ UNCHANGED <<hold, buf, half, ref>>
                                         /\ Emit("graceful", <<r>>, [R0 EXCEPT !.log = IF wr # <<>> THEN <<"send_error">> ELSE <<>>, !.err = wr])
                  ELSE IF ph \in {"grace", "closing"} THEN UNCHANGED <<ph, hold, wr, buf, half, ref, gr>> /\ Emit("graceful", <<r>>, R0)
                  ELSE Down /\ gr' = gr /\ Emit("graceful", <<r>>, ForceRes(<<>>))
SetRec == /\ "setrec" \in Ops /\ Client /\ ph # "closed" /\ ph # "new"
          /\ \E r \in BOOLEAN : r # rec /\ rec' = r /\ UNCHANGED <<ph, hold, wr, buf, half, ref, gr>> /\ Emit("setrec", <<r>>, R0)

ConnectOk == /\ ph = "connecting" /\ Up /\ UNCHANGED <<rec, hold, ref>> /\ Emit("connected", <<>>, L(<<"connect">>))
ConnectFail == /\ ph = "connecting" /\ ph' = "delay" /\ UNCHANGED <<rec, hold, wr, buf, half, ref, gr>> /\ Emit("refused", <<>>, R0)
\* the peer closes or the transport breaks
Broken == /\ "eof" \in Ops /\ ph \in {"up", "grace"} /\ Down /\ UNCHANGED <<rec, gr>>
          /\ \E how \in {"eof", "reset"} : Emit("broken", <<how>>, [R0 EXCEPT !.log = <<"recv_error">> \o (IF wr # <<>> THEN <<"send_error">> ELSE <<>>), !.err = wr])
Bad == /\ "bad" \in Ops /\ ph \in {"up", "grace"} /\ ~half /\ Down /\ UNCHANGED <<rec, gr>>
       /\ Emit("bad", <<>>, ForceRes(<<"unpack_error">>))
Msg == /\ "msg" \in Ops /\ ph \in {"up", "grace"}
       /\ \/ /\ ref = 0 /\ half' = FALSE /\ UNCHANGED <<ph, rec, hold, wr, buf, ref, gr>> /\ Emit("msg", <<TRUE>>, L(<<"msg">>))
          \/ /\ "refuse" \in Ops /\ ref = 0 /\ half' = FALSE /\ ref' = 1 /\ UNCHANGED <<ph, rec, hold, wr, buf, gr>> /\ Emit("msg", <<FALSE>>, L(<<"offer">>))
          \/ /\ ref = 1 /\ half' = FALSE /\ ref' = 2 /\ UNCHANGED <<ph, rec, hold, wr, buf, gr>> /\ Emit("msg", <<TRUE>>, R0)
Half == /\ "half" \in Ops /\ ph \in {"up", "grace"} /\ ~half
        /\ half' = TRUE /\ UNCHANGED <<ph, rec, hold, wr, buf, ref, gr>> /\ Emit("half", <<>>, R0)
Send == /\ "send" \in Ops /\ Cardinality(Used) < N
        /\ IF ph = "up" /\ wr = <<>> THEN wr' = Append(buf, NewId) /\ buf' = <<>> ELSE buf' = Append(buf, NewId) /\ wr' = wr
        /\ UNCHANGED <<ph, rec, hold, half, ref, gr>> /\ Emit("send", <<NewId>>, R0)
Drain == /\ "send" \in Ops /\ wr # <<>>
         /\ wr' = buf /\ buf' = <<>> /\ UNCHANGED <<ph, rec, hold, half, ref, gr>> /\ Emit("drain", <<>>, [R0 EXCEPT !.sent = wr])
Fail == /\ "werr" \in Ops /\ wr # <<>>
        /\ wr' = <<>> /\ UNCHANGED <<ph, rec, hold, buf, half, ref, gr>> /\ Emit("werr", <<>>, [R0 EXCEPT !.log = <<"send_error">>, !.err = wr])
Hold == /\ "hold" \in Ops /\ ~hold /\ Live(ph) /\ hold' = TRUE /\ UNCHANGED <<ph, rec, wr, buf, half, ref, gr>> /\ Emit("hold", <<>>, R0)
Release == /\ hold /\ hold' = FALSE /\ UNCHANGED <<ph, rec, wr, buf, half, ref, gr>> /\ Emit("release", <<>>, L(<<"held">>))

\* an operation of the transport completes and the application shuts the link down before its handler has run: both orders are possible
\* (first: the completion comes first), the link ends in the same way; may: callbacks which depend on the order
Race == \E io \in {"ok", "refused", "msg", "eof", "drain", "werr"}, call \in {"force", "graceful"}, r \in (IF Client THEN BOOLEAN ELSE {FALSE}), first \in BOOLEAN :
        /\ "race" \in Ops /\ ref = 0 /\ ~half /\ buf = <<>>
        /\ (io \in {"ok", "refused"} => ph = "connecting") /\ (io \in {"msg", "eof"} => ph \in {"up", "grace"}) /\ (io \in {"drain", "werr"} => wr # <<>>)
        /\ rec' = r /\ UNCHANGED <<hold, ref, buf, half>> /\ wr' = <<>>
        /\ IF (call = "graceful" /\ ph \in {"up", "grace"}) /\ io # "eof" THEN ph' = "grace" /\ gr' = TRUE ELSE ph' = "closing" /\ gr' = gr
        /\ Emit("race", <<io, call, r, first>>, [R0 EXCEPT
             !.log = IF io = "werr" \/ (wr # <<>> /\ io # "drain") THEN <<"send_error">> ELSE IF io = "msg" /\ ph' = "grace" THEN <<"msg">> ELSE <<>>,
             !.may = CASE io = "ok" -> <<"connect", "recv_error">> [] io = "msg" -> <<"msg", "recv_error">> [] OTHER -> <<"recv_error">>,
             !.sent = IF io = "drain" THEN wr ELSE <<>>, !.err = IF io # "drain" THEN wr ELSE <<>>])

\* time passes until something happens by itself (or long enough to see that nothing does)
\* the hook is asked only by links which want to be reconnected; tw: how long the operation has to take (ms), -1: not prescribed
W(w, d, tw, r) == Emit("wait", [w |-> w, d |-> d, tw |-> tw], r)
Wait ==
  \/ /\ ph = "wait" /\ ph' = "connecting" /\ UNCHANGED <<rec, hold, wr, buf, half, ref, gr>> /\ W("connect", 0, -1, R0)
  \/ /\ ph = "delay" /\ rec /\ \E d \in Delays :
        \* the driver stays until the next connect was tried, so that the delay is seen
        IF d >= 0 THEN /\ ph' = (IF nb THEN "delay" ELSE "connecting") /\ UNCHANGED <<rec, hold, wr, buf, half, ref, gr>> /\ W("prep", d, d, L(<<"prep">>))
        ELSE /\ Down /\ rec' = FALSE /\ gr' = gr /\ W("prep", d, -1, L(<<"prep">>))
  \/ /\ ph = "delay" /\ ~rec /\ Down /\ UNCHANGED <<rec, gr>> /\ W("giveup", 0, -1, R0)
  \/ /\ ph = "closing" /\ hold /\ Track /\ UNCHANGED vars /\ W("nothing", 0, -1, R0)
  \/ /\ ph = "closing" /\ (~hold \/ ~Track) /\ UNCHANGED <<rec, hold, wr, buf, ref>> /\ half' = FALSE /\ gr' = FALSE
     /\ ph' = (IF rec THEN (IF nb THEN "delay" ELSE "wait") ELSE "closed") /\ W("close", 0, -1, [R0 EXCEPT !.log = <<"close">>, !.dels = IF rec THEN 0 ELSE 1])
  \/ /\ ph \in {"up", "grace"} /\ ref > 0
     /\ \/ /\ ref' = 0 /\ UNCHANGED <<ph, rec, hold, wr, buf, half, gr>> /\ W("retry", 1, -1, L(IF ref = 1 THEN <<"msg">> ELSE <<"msg", "msg">>))
        \/ /\ UNCHANGED vars /\ W("retry", -1, -1, L(<<"offer">>))
  \/ /\ ph = "grace" /\ ref = 0 /\ Down /\ UNCHANGED <<rec, gr>> /\ W("timeout", 0, 1000, ForceRes(<<"timeout">>))
  \/ /\ ph = "up" /\ ref = 0 /\ UNCHANGED vars /\ W("nothing", 0, -1, R0)
  \/ /\ ph \in {"new", "closed"} /\ UNCHANGED vars /\ W("nothing", 0, -1, R0)
NoBind == /\ "nobind" \in Ops /\ Client /\ nb' = ~nb /\ UNCHANGED <<ph, rec, hold, wr, buf, half, ref, gr>> /\ Emit("nobind", <<nb'>>, R0)
Next == NoBind \/ (UNCHANGED nb /\ (Start \/ Reset \/ Force \/ Graceful \/ SetRec \/ ConnectOk \/ ConnectFail \/ Broken \/ Bad \/ Msg \/ Half \/ Send \/ Drain \/ Fail \/ Hold \/ Release \/ Race \/ Wait))
Spec == Init /\ [][Next]_vars /\ WF_vars(UNCHANGED nb /\ Wait) /\ WF_vars(UNCHANGED nb /\ Release)

TypeOK == /\ (wr # <<>> => ph = "up") /\ (half => ph \in {"up", "grace"}) /\ (~Client => ~rec /\ ph \notin {"wait", "connecting", "delay"})
\* C11: a link which was told to go down closes; C12: a client which wants to reconnect tries again
Closes == [](ph = "closing" => <>(ph \in {"closed", "wait", "delay"}))
Retries == <>[](~nb) => []((ph = "delay" /\ rec) => <>(ph # "delay"))
=============================================================================
