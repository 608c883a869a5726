------------------------------ MODULE Heartbeat ------------------------------
(* One side of a link with heartbeats, a clock which ticks in seconds. The check comes every I seconds: a link on which nothing has been received for
   I * M seconds is reported (the answer decides whether the checks go on), a link which has sent nothing for I seconds and is not sending sends a heartbeat.
   Anything received counts: messages, heartbeats, parts of messages. Heartbeats are never delivered. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Client, Auto,  \* Auto: the checks start by themselves with each connection (interval 2, absence 2)
          Always,        \* heartbeats are sent while messages are being sent too
          HasHb,         \* the protocol has heartbeats
          Policy,        \* default: shut the link down; stop: no more checks; continue
          Confs, Ops, EMIT
VARIABLES ph, I, M, left, sr, ss, wr, q, half
\* ph: new, wait, connecting, up, closing, closed; left: seconds till the next check (0: none); sr, ss: seconds since the last receiving and sending
vars == <<ph, I, M, left, sr, ss, wr, q, half>>
St == [ph |-> ph, I |-> I, M |-> M, left |-> left, sr |-> sr, ss |-> ss, wr |-> wr, q |-> q, half |-> half]
Cap == 6
Bound(x) == IF x > Cap THEN Cap ELSE x
Obs == [on |-> left' # 0, conn |-> ph' = "up", writing |-> wr' # <<>>, connecting |-> ph' = "connecting"]
R0 == [log |-> <<>>, sent |-> <<>>, ret |-> TRUE]
Emit(k, a, r) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> a, res |-> r @@ Obs], post |-> St'])) ELSE TRUE
Init == /\ ph = "new" /\ I = 0 /\ M = 0 /\ left = 0 /\ sr = 0 /\ ss = Cap /\ wr = <<>> /\ q = <<>> /\ half = FALSE
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE

\* the link is established: what was queued is handed to the transport
Up == ph' = "up" /\ sr' = 0 /\ wr' = q /\ q' = <<>> /\ half' = FALSE /\ IF Auto /\ left = 0 THEN left' = 2 /\ I' = 2 /\ M' = 2 ELSE UNCHANGED <<left, I, M>>
Start == /\ ph = "new" /\ UNCHANGED ss
         /\ IF Client THEN ph' = "wait" /\ UNCHANGED <<I, M, left, sr, wr, q, half>> /\ Emit("start", <<>>, R0)
            ELSE Up /\ Emit("start", <<>>, [R0 EXCEPT !.log = <<"connect">>])
Connected == ph = "connecting" /\ Up /\ UNCHANGED ss /\ Emit("connected", <<>>, [R0 EXCEPT !.log = <<"connect">>])
Put(x) == IF wr = <<>> THEN wr' = <<x>> /\ UNCHANGED q ELSE q' = Append(q, x) /\ UNCHANGED wr
\* the check; on: whether the timer goes on by itself. s, r: seconds since the last sending and receiving
Check(i, m, s, r) ==
  IF ph # "up" THEN [err |-> FALSE, ret |-> TRUE, hb |-> FALSE]
  ELSE LET e == r >= i * m IN
       [err |-> e, ret |-> ~e \/ Policy = "continue", hb |-> (~e \/ Policy = "continue") /\ HasHb /\ (Always \/ (s >= i /\ wr = <<>>))]
Log(c) == IF c.err THEN <<"dead">> ELSE <<>>
\* what follows a check: a heartbeat, or the default answer closes the link
After(c) == IF c.err /\ Policy = "default" THEN ph' = "closing" /\ wr' = <<>> /\ UNCHANGED q
            ELSE UNCHANGED ph /\ IF c.hb THEN Put("h") ELSE UNCHANGED <<wr, q>>
Later == CASE ph = "wait" -> "connecting" [] ph = "closing" -> (IF Client THEN "connecting" ELSE "closed") [] OTHER -> ph
Tick == /\ ph # "closed" /\ Len(q) < 2
        /\ sr' = Bound(sr + 1) /\ ss' = Bound(ss + 1) /\ UNCHANGED <<I, M, half>>
        /\ IF left = 1
           THEN LET c == Check(I, M, ss + 1, sr + 1) IN
                /\ left' = (IF c.ret THEN I ELSE 0)
                /\ IF ph = "up" THEN After(c) ELSE ph' = Later /\ UNCHANGED <<wr, q>>
                /\ Emit("tick", <<>>, [R0 EXCEPT !.log = Log(c)])
           ELSE left' = (IF left = 0 THEN 0 ELSE left - 1) /\ ph' = Later /\ UNCHANGED <<wr, q>> /\ Emit("tick", <<>>, [R0 EXCEPT !.log = IF ph = "closing" THEN <<"close">> ELSE <<>>])
\* starting again doesn't change running checks
StartHb == \E c \in Confs : /\ "starthb" \in Ops /\ ph \notin {"closing", "closed"} /\ UNCHANGED <<ph, sr, ss, wr, q, half>>
                            /\ IF left = 0 THEN I' = c[1] /\ M' = c[2] /\ left' = c[1] ELSE UNCHANGED <<I, M, left>>
                            /\ Emit("starthb", c, R0)
StopHb == "stophb" \in Ops /\ left # 0 /\ left' = 0 /\ UNCHANGED <<ph, I, M, sr, ss, wr, q, half>> /\ Emit("stophb", <<>>, R0)
Manual == \E f \in Confs : /\ "check" \in Ops /\ ph \notin {"closing", "closed"} /\ Len(q) < 2
             /\ LET c == Check(f[1], f[2], ss, sr) IN
                /\ After(c) /\ UNCHANGED <<I, M, sr, ss, half>> /\ left' = (IF ph' = "closing" THEN 0 ELSE left)
                /\ Emit("check", f, [R0 EXCEPT !.log = Log(c), !.ret = c.ret])
Recv(k) == /\ ph = "up" /\ k \in Ops /\ (k \in {"hb", "hbmsg"} => HasHb) /\ (half => k = "msg")
           /\ sr' = 0 /\ half' = (k = "part") /\ UNCHANGED <<ph, I, M, left, ss, wr, q>>
           /\ Emit(k, <<>>, [R0 EXCEPT !.log = IF k \in {"msg", "hbmsg"} THEN <<"msg">> ELSE <<>>])
Send == "send" \in Ops /\ ph \in {"up", "connecting"} /\ Len(q) < 1 /\ (IF ph = "up" THEN Put("m") ELSE q' = Append(q, "m") /\ UNCHANGED wr) /\ UNCHANGED <<ph, I, M, left, sr, ss, half>> /\ Emit("send", <<>>, R0)
Drain == /\ ph = "up" /\ wr # <<>> /\ wr' = q /\ q' = <<>> /\ ss' = 0 /\ UNCHANGED <<ph, I, M, left, sr, half>> /\ Emit("drain", <<>>, [R0 EXCEPT !.sent = wr])
Force == "force" \in Ops /\ ph = "up" /\ ph' = "closing" /\ wr' = <<>> /\ left' = 0 /\ UNCHANGED <<I, M, sr, ss, q, half>> /\ Emit("force", <<>>, R0)
Next == Start \/ Connected \/ Tick \/ StartHb \/ StopHb \/ Manual \/ Send \/ Drain \/ Force \/ \E k \in {"hb", "msg", "hbmsg", "part"} : Recv(k)
Spec == Init /\ [][Next]_vars
TypeOK == left \in 0 .. 3 /\ sr \in 0 .. Cap /\ ss \in 0 .. Cap
\* with the automatic start and the default answer a silent peer never goes unnoticed, and an idle link never stays silent
Detected == (Auto /\ Policy = "default" /\ ph = "up") => (left # 0 /\ sr < I * M + I)
Lively == (Auto /\ HasHb /\ ph = "up" /\ wr = <<>> /\ Policy # "stop") => ss < 2 * I \/ sr < I
Fresh == [][ph = "up" /\ ph' = "closing" => (left' = 0)]_vars
=============================================================================
