------------------------------ MODULE Reliable ------------------------------
(* A reliable datagram socket: connected and with a kcp, each message is handed to the kcp, in order, as long as not too many wait there; else sending pauses and
   looks again every 10 ms. What arrives goes through the kcp, and what the kcp then has is delivered. The kcp (here: a window of W messages, acknowledged
   one by one, sent again at each periodic update) has its periodic updates. Without a kcp, or not connected, the socket is a plain one. Closing releases the kcp. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Limit, W, Connect, Maxes, Ops, EMIT
VARIABLES ph, kcp, q, kq, fl, max, ct, kt, rn, hold, n
\* q: the socket's send buffer, kq: waiting in the kcp, fl: on the way; ct, kt: ticks (5 ms) until the next look and the next update (0: none)
\* rn: the next number expected from the peer (mod 4), hold: the one after it is here already; n: messages sent (bounds the model)
vars == <<ph, kcp, q, kq, fl, max, ct, kt, rn, hold, n>>
St == [ph |-> ph, kcp |-> kcp, q |-> q, kq |-> kq, fl |-> fl, max |-> max, ct |-> ct, kt |-> kt, rn |-> rn, hold |-> hold]
Rel == kcp /\ Connect
Used == {q[i] : i \in 1..Len(q)} \cup {kq[i] : i \in 1..Len(kq)} \cup {fl[i] : i \in 1..Len(fl)}
NewId == CHOOSE i \in 1..N + 1 : i \notin Used /\ \A j \in 1..i - 1 : j \in Used
R0 == [ret |-> TRUE, wire |-> <<>>, given |-> <<>>, note |-> <<>>, got |-> <<>>, closes |-> 0]
Emit(k, a, r) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> a, res |-> r @@ [bytes |-> 8 * Len(q'), started |-> ph' = "up", kcp |-> kcp', alive |-> IF kcp' THEN 1 ELSE 0]], post |-> St'])) ELSE TRUE
Init == /\ ph = "new" /\ kcp = FALSE /\ q = <<>> /\ kq = <<>> /\ fl = <<>> /\ max = 0 /\ ct = 0 /\ kt = 0 /\ rn = 0 /\ hold = FALSE /\ n = 0
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE
\* [q, kq, fl, out: what goes onto the wire, given: handed over, ct]
RECURSIVE Fill(_)
Fill(s) == IF s.kq # <<>> /\ Len(s.fl) < W THEN Fill([s EXCEPT !.kq = Tail(@), !.fl = Append(@, Head(s.kq)), !.out = Append(@, Head(s.kq))]) ELSE s
RECURSIVE Push(_)
Push(s) == IF Len(s.kq) > max' THEN [s EXCEPT !.ct = 2] ELSE IF s.q = <<>> THEN s
           ELSE Push(Fill([s EXCEPT !.q = Tail(@), !.kq = Append(@, Head(s.q)), !.given = Append(@, Head(s.q))]))
Now(b) == [q |-> b, kq |-> kq, fl |-> fl, out |-> <<>>, given |-> <<>>, ct |-> 0]
Raw(b) == [q |-> <<>>, kq |-> kq, fl |-> fl, out |-> [i \in 1..Len(b) |-> 50 + b[i]], given |-> <<>>, ct |-> 0]
\* sending goes on if it is not paused
Go(b) == IF ph' # "up" THEN Now(b) ELSE IF kcp' /\ Connect THEN (IF ct # 0 THEN [Now(b) EXCEPT !.ct = ct] ELSE Push(Now(b))) ELSE Raw(b)
Take(s) == q' = s.q /\ kq' = s.kq /\ fl' = s.fl /\ ct' = s.ct
Notes(s) == s.given \o [i \in 1..(IF s.given = <<>> THEN Len(s.out) ELSE 0) |-> s.out[i] - 50]
Create == /\ "create" \in Ops /\ UNCHANGED <<ph, q, max, ct, kt, n>>
          /\ IF ph = "up" THEN UNCHANGED <<kcp, kq, fl, rn, hold>> /\ Emit("create", <<>>, [R0 EXCEPT !.ret = FALSE])
             ELSE kcp' = TRUE /\ kq' = <<>> /\ fl' = <<>> /\ rn' = 0 /\ hold' = FALSE /\ Emit("create", <<>>, R0)
Start == /\ ph # "up" /\ ph' = "up" /\ UNCHANGED <<kcp, max, rn, hold, n>> /\ kt' = (IF kcp THEN 3 ELSE 0)
         /\ LET s == Go(q) IN Take(s) /\ Emit("start", <<>>, [R0 EXCEPT !.wire = s.out, !.given = s.given, !.note = Notes(s)])
Send == \E ovf \in BOOLEAN, prior \in BOOLEAN :
        LET ok == ovf \/ 8 * Len(q) < Limit  id == NewId IN
        /\ Cardinality(Used) < N /\ ph # "closed" /\ UNCHANGED <<ph, kcp, max, kt, rn, hold>> /\ n' = n + 1
        /\ LET s == IF ok THEN Go(IF prior THEN <<id>> \o q ELSE Append(q, id)) ELSE [Now(q) EXCEPT !.ct = ct] IN
           Take(s) /\ Emit("send", [id |-> id, ovf |-> ovf, prior |-> prior], [R0 EXCEPT !.ret = ok, !.wire = s.out, !.given = s.given, !.note = Notes(s)])
Tick == LET again == IF kt = 1 /\ kcp THEN fl ELSE <<>>  due == ct = 1 IN
        /\ ph = "up" /\ UNCHANGED <<ph, kcp, max, rn, hold, n>> /\ kt' = (IF kt = 0 THEN 0 ELSE IF kt = 1 THEN 2 ELSE kt - 1)
        /\ LET s == IF due THEN Push(Now(q)) ELSE [Now(q) EXCEPT !.ct = IF ct = 0 THEN 0 ELSE ct - 1] IN
           Take(s) /\ Emit("tick", <<>>, [R0 EXCEPT !.wire = again \o s.out, !.given = s.given, !.note = s.given])
SetMax == \E m \in Maxes : "setmax" \in Ops /\ m # max /\ max' = m /\ UNCHANGED <<ph, kcp, q, kq, fl, ct, kt, rn, hold, n>> /\ Emit("setmax", <<m>>, R0)
Ack == \E k \in 1..W : /\ ph = "up" /\ Rel /\ k <= Len(fl) /\ UNCHANGED <<ph, kcp, max, kt, rn, hold, n>>
       /\ LET s == Fill([[Now(q) EXCEPT !.fl = SubSeq(fl, k + 1, Len(fl))] EXCEPT !.ct = ct]) IN Take(s) /\ Emit("ack", <<k>>, [R0 EXCEPT !.wire = s.out])
Data == \E w \in {"next", "ahead", "dup", "junk"} :
        LET two == w = "next" /\ hold IN
        /\ "data" \in Ops /\ ph = "up" /\ Rel /\ UNCHANGED <<ph, kcp, q, kq, fl, max, ct, kt, n>>
        /\ rn' = (IF w # "next" THEN rn ELSE IF hold THEN (rn + 2) % 4 ELSE (rn + 1) % 4)
        /\ hold' = (IF w = "ahead" THEN TRUE ELSE IF w = "next" THEN FALSE ELSE hold)
        /\ Emit("data", <<IF two THEN "fill" ELSE w>>, [R0 EXCEPT !.wire = IF w = "junk" THEN <<>> ELSE <<100>>, !.got = IF w # "next" THEN <<>> ELSE IF hold THEN <<rn, (rn + 1) % 4>> ELSE <<rn>>])
RawIn == "data" \in Ops /\ ph = "up" /\ ~Connect /\ UNCHANGED vars /\ Emit("raw", <<>>, [R0 EXCEPT !.got = <<9>>])
RawIn2 == "data" \in Ops /\ ph = "up" /\ Connect /\ ~kcp /\ UNCHANGED vars /\ Emit("raw", <<>>, [R0 EXCEPT !.got = <<9>>])
Close == /\ "close" \in Ops /\ ph = "up" /\ ph' = "closed" /\ kcp' = FALSE /\ kq' = <<>> /\ fl' = <<>> /\ ct' = 0 /\ kt' = 0 /\ rn' = 0 /\ hold' = FALSE /\ UNCHANGED <<q, max, n>>
         /\ Emit("close", <<>>, [R0 EXCEPT !.closes = 1])
Next == Create \/ Start \/ Send \/ Tick \/ SetMax \/ Ack \/ Data \/ RawIn \/ RawIn2 \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(Ack)
Bound == n <= N + 2
Pressure == Rel => Len(kq) <= (CHOOSE m \in Maxes : \A x \in Maxes : x <= m) + 1
Paused == ph = "up" /\ q # <<>> => ct # 0
\* what waits is always sent in the end, however sending had been paused
Sent == [](ph = "up" /\ q # <<>> => <>(ph # "up" \/ q = <<>> \/ n > N + 1))
=============================================================================
