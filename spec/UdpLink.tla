------------------------------ MODULE UdpLink ------------------------------
(* The sending half and the life of one datagram socket, connected or not. Each message has an address: the one given with it, or the default peer at that
   time; a connected socket sends to the peer it has been connected to. One datagram is handed to the transport at a time; a failed one is given back to the
   application and the next one goes out. Closing gives back what was being sent (and what is tried on the closed socket), the rest waits for the next start. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS N, Limit, Connect, Notify, Ops, EMIT
VARIABLES ph, q, cur, peer, cp
\* ph: new, up, closed; q, cur: [id, to] waiting and being sent; peer: default peer; cp: the connected peer (0: none)
vars == <<ph, q, cur, peer, cp>>
St == [ph |-> ph, q |-> q, cur |-> cur, peer |-> peer, cp |-> cp]
Bytes(s) == FoldSeq(LAMBDA m, a : a + (IF m.id = 9 THEN 2 ELSE 10), 0, s)  \* heartbeats (id 9) are short
RangeOf(s) == {s[i] : i \in 1 .. Len(s)}
Used == {m.id : m \in RangeOf(q) \cup RangeOf(cur)}
NewId == CHOOSE i \in 1 .. (N + 1) : i \notin Used /\ \A j \in 1 .. (i - 1) : j \in Used
IdsOf(s) == [i \in 1 .. Len(s) |-> s[i].id]
Obs == [bytes |-> Bytes(q'), avail |-> Bytes(q') < Limit, started |-> ph' = "up", writing |-> cur' # <<>>, connected |-> cp' # 0]
R0 == [ret |-> TRUE, sent |-> <<>>, err |-> <<>>, note |-> <<>>, all |-> <<>>, popped |-> <<>>, log |-> <<>>]
Emit(k, a, r) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> a, res |-> r @@ Obs], post |-> St'])) ELSE TRUE
Init == /\ ph = "new" /\ q = <<>> /\ cur = <<>> /\ peer = 1 /\ cp = 0
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE
Settle(b, c) == IF ph' = "up" /\ c = <<>> /\ b # <<>> THEN cur' = <<Head(b)>> /\ q' = Tail(b) ELSE cur' = c /\ q' = b
Start == \E r \in {"ok", "nobind", "noconn"} :
         /\ "start" \in Ops /\ ph \in {"new", "closed"} /\ (r = "noconn" => Connect) /\ UNCHANGED peer
         /\ IF r = "nobind" THEN ph' = ph /\ cp' = cp /\ UNCHANGED <<q, cur>>
            ELSE ph' = "up" /\ cp' = (IF Connect /\ r = "ok" THEN peer ELSE 0) /\ Settle(q, cur)
         /\ Emit("start", <<r>>, R0)
\* to = 0: the default peer
Send == \E to \in 0 .. 2, ovf \in BOOLEAN, prior \in BOOLEAN :
        LET ok == ovf \/ Bytes(q) < Limit  m == [id |-> NewId, to |-> IF to = 0 THEN peer ELSE to] IN
        /\ "send" \in Ops /\ Cardinality(Used) < N /\ UNCHANGED <<peer, cp>> /\ ph # "closed" /\ ph' = ph
        /\ IF ok THEN Settle(IF prior THEN <<m>> \o q ELSE Append(q, m), cur) ELSE UNCHANGED <<q, cur>>
        /\ Emit("send", [id |-> NewId, to |-> to, ovf |-> ovf, prior |-> prior], [R0 EXCEPT !.ret = ok])
\* too big for a datagram buffer: refused by the packer, nothing is queued
Big == \E to \in 0 .. 1, ovf \in BOOLEAN : LET ok == ovf \/ Bytes(q) < Limit IN "big" \in Ops /\ UNCHANGED vars /\ Emit("big", [to |-> to, ovf |-> ovf], [R0 EXCEPT !.ret = ok])
Beat == "beat" \in Ops /\ ph # "closed" /\ Cardinality(Used) < N /\ 9 \notin Used /\ UNCHANGED <<peer, cp>> /\ ph' = ph /\ Settle(Append(q, [id |-> 9, to |-> peer]), cur) /\ Emit("beat", [id |-> 9], R0)
SetPeer == \E p \in 1 .. 2 : "setpeer" \in Ops /\ p # peer /\ peer' = p /\ (Connect => ph # "up") /\ UNCHANGED <<ph, q, cur, cp>> /\ Emit("setpeer", <<p>>, R0)
Out == [id |-> cur[1].id, to |-> IF cp # 0 THEN cp ELSE cur[1].to]
Drain == /\ cur # <<>> /\ UNCHANGED <<peer, cp>> /\ ph' = ph /\ Settle(q, <<>>)
         /\ Emit("drain", <<>>, [R0 EXCEPT !.sent = <<Out>>, !.note = IF Notify THEN IdsOf(cur) ELSE <<>>, !.all = IF Notify /\ q = <<>> THEN IdsOf(cur) ELSE <<>>])
Fail == \E e \in {"refused", "unreachable", "toobig"} : /\ "fail" \in Ops /\ cur # <<>> /\ UNCHANGED <<peer, cp>> /\ ph' = ph /\ Settle(q, <<>>) /\ Emit("fail", <<e>>, [R0 EXCEPT !.err = IdsOf(cur)])
\* the application sends again what was given back, from within the notification
Resend == \E prior \in BOOLEAN : LET b == IF prior THEN cur \o q ELSE q \o cur IN /\ "resend" \in Ops /\ cur # <<>> /\ ~Connect /\ UNCHANGED <<peer, cp>> /\ ph' = ph /\ Settle(b, <<>>) /\ Emit("resend", [prior |-> prior], [R0 EXCEPT !.err = IdsOf(cur)])
Pop == "pop" \in Ops /\ q' = (IF q = <<>> THEN q ELSE Tail(q)) /\ UNCHANGED <<ph, cur, peer, cp>> /\ Emit("pop", <<>>, [R0 EXCEPT !.popped = IF q = <<>> THEN <<>> ELSE <<q[1]>>])
PopAll == "popall" \in Ops /\ q' = <<>> /\ UNCHANGED <<ph, cur, peer, cp>> /\ Emit("popall", <<>>, [R0 EXCEPT !.popped = q])
Force == /\ "force" \in Ops /\ ph = "up" /\ ph' = "closed" /\ UNCHANGED <<peer, cp>> /\ cur' = <<>> /\ q' = (IF cur = <<>> \/ q = <<>> THEN q ELSE Tail(q))
         /\ Emit("force", <<>>, [R0 EXCEPT !.err = IdsOf(cur) \o (IF cur = <<>> \/ q = <<>> THEN <<>> ELSE <<q[1].id>>), !.log = <<"close">>])
Next == Start \/ Send \/ Big \/ Beat \/ SetPeer \/ Drain \/ Fail \/ Resend \/ Pop \/ PopAll \/ Force
Spec == Init /\ [][Next]_vars /\ WF_vars(Drain)
NothingLeft == ph = "up" /\ q # <<>> => cur # <<>>
\* once nothing new comes, everything that waits in a started socket leaves
Sent == <>[][~Send /\ ~Beat /\ ~Resend]_vars => <>[](ph = "up" => q = <<>> /\ cur = <<>>)
Target == \A m \in RangeOf(q) \cup RangeOf(cur) : m.to \in 1 .. 2
=============================================================================
