------------------------------ MODULE LinkSend ------------------------------
(* The sending half of one stream link: the send buffer with its flow control and the batches handed to the transport.
   Messages are [id, len]; ids are reused (the smallest free one), so that the state space is finite; the driver gives every
   incarnation of an id its own bytes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Lens, N,        \* lengths on the wire; at most N messages are pending
          Limit,          \* send_buf_size
          Batch,          \* bytes handed to the transport at once (0: one message at once)
          Shrink,         \* -1: shrinking not compiled in; otherwise how many bytes the application wants discarded (-2: the default, a third)
          Notify,         \* "" | "one" | "batch": which send notifications are compiled in
          Parts,          \* numbers of bytes the transport may take when it does not take everything
          Ops, EMIT
VARIABLES up, buf, wr, off
vars == <<up, buf, wr, off>>
St == [up |-> up, buf |-> buf, wr |-> wr, off |-> off]

Sum(s) == FoldSeq(LAMBDA m, a : m.len + a, 0, s)
IdsOf(s) == [i \in 1..Len(s) |-> s[i].id]
Used == {buf[i].id : i \in 1..Len(buf)} \cup {wr[i].id : i \in 1..Len(wr)}
NewId(S) == CHOOSE i \in 1..(N + 1) : i \notin S /\ \A j \in 1..(i - 1) : j \in S
\* how many messages from the head reach n bytes (at least one, all if there are less)
Take(q, n) == IF q = <<>> THEN 0 ELSE IF \E k \in 1..Len(q) : Sum(SubSeq(q, 1, k)) >= n
              THEN CHOOSE k \in 1..Len(q) : Sum(SubSeq(q, 1, k)) >= n /\ \A j \in 1..(k - 1) : Sum(SubSeq(q, 1, j)) < n ELSE Len(q)
\* hand the next batch to the transport if the link is up and it is idle
Hand(q, w) == IF up' /\ w = <<>> /\ q # <<>> THEN LET k == Take(q, Batch) IN [q |-> SubSeq(q, k + 1, Len(q)), w |-> SubSeq(q, 1, k)] ELSE [q |-> q, w |-> w]
Settle(q, w) == LET h == Hand(q, w) IN buf' = h.q /\ wr' = h.w

Obs == [bytes |-> Sum(buf'), avail |-> Sum(buf') < Limit, writing |-> wr' # <<>>, left |-> Sum(wr') - off']
R0 == [ret |-> TRUE, sent |-> <<>>, err |-> <<>>, gone |-> <<>>, popped |-> <<>>, note |-> <<>>, all |-> <<>>, dm |-> 0, db |-> 0]
Emit(k, op, r) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> op, res |-> r @@ Obs], post |-> St'])) ELSE TRUE

Init == /\ up = FALSE /\ buf = <<>> /\ wr = <<>> /\ off = 0
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE

Start == /\ "start" \in Ops /\ ~up
         /\ up' = TRUE /\ off' = 0 /\ Settle(buf, wr)
         /\ Emit("start", <<>>, R0)

\* what a refused or shrunk buffer leaves: [ok, q, gone]
Admit(ovf) == IF ovf \/ Sum(buf) < Limit THEN [ok |-> TRUE, q |-> buf, gone |-> <<>>]
              ELSE LET n == CASE Shrink = -1 -> 0 [] Shrink = -2 -> Sum(buf) \div 3 [] OTHER -> Shrink
                       k == Take(buf, n)
                   IN IF n = 0 THEN [ok |-> FALSE, q |-> buf, gone |-> <<>>] ELSE [ok |-> TRUE, q |-> SubSeq(buf, k + 1, Len(buf)), gone |-> SubSeq(buf, 1, k)]

SendMsgs(ls, ovf, prior) ==
    LET a == Admit(ovf)
        id1 == NewId(Used)  id2 == NewId(Used \cup {id1})  id3 == NewId(Used \cup {id1, id2})
        ms == [i \in 1..Len(ls) |-> [id |-> CASE i = 1 -> id1 [] i = 2 -> id2 [] OTHER -> id3, len |-> ls[i]]]
        q == IF ~a.ok THEN buf ELSE IF prior THEN ms \o a.q ELSE a.q \o ms
    IN /\ Cardinality(Used) + Len(ls) <= N
       /\ up' = up /\ off' = off /\ (IF a.ok THEN Settle(q, wr) ELSE UNCHANGED <<buf, wr>>)
       /\ Emit("send", [ms |-> ms, ovf |-> ovf, prior |-> prior], [R0 EXCEPT !.ret = a.ok, !.gone = IdsOf(a.gone)])
Send == \/ "send" \in Ops /\ \E l \in Lens, ovf \in BOOLEAN, prior \in BOOLEAN : SendMsgs(<<l>>, ovf, prior)
        \/ "send2" \in Ops /\ \E l1 \in Lens, l2 \in Lens, ovf \in BOOLEAN, prior \in BOOLEAN : SendMsgs(<<l1, l2>>, ovf, prior)
        \/ "send3" \in Ops /\ \E l \in Lens, ovf \in BOOLEAN, prior \in BOOLEAN : SendMsgs(<<CHOOSE m \in Lens : \A o \in Lens : m <= o, l, l>>, ovf, prior)
\* an empty message is never queued; only the answer depends on the buffer
SendEmpty == /\ "empty" \in Ops /\ Cardinality(Used) < N
             /\ \E ovf \in BOOLEAN, prior \in BOOLEAN :
                LET a == Admit(ovf) IN /\ up' = up /\ off' = off /\ buf' = a.q /\ wr' = wr
                                       /\ Emit("empty", [ovf |-> ovf, prior |-> prior], [R0 EXCEPT !.ret = a.ok, !.gone = IdsOf(a.gone)])

\* the transport takes n bytes of the outstanding write
Drained(n) == LET t == off + n IN [i \in 1..Len(wr) |-> Sum(SubSeq(wr, 1, i)) > off /\ Sum(SubSeq(wr, 1, i)) <= t]
SentIds(n) == LET d == Drained(n) IN IdsOf(SelectSeq([i \in 1..Len(wr) |-> [id |-> wr[i].id, ok |-> d[i]]], LAMBDA x : x.ok))
DrainAll == /\ "drain" \in Ops /\ wr # <<>>
            /\ LET n == Sum(wr) - off IN
               /\ up' = up /\ off' = 0 /\ Settle(buf, <<>>)
               /\ Emit("drain", <<n>>, [R0 EXCEPT !.sent = SentIds(n), !.dm = Len(wr), !.db = Sum(wr),
                       !.note = IF Notify = "" THEN <<>> ELSE IdsOf(wr), !.all = IF Notify # "" /\ buf = <<>> THEN <<wr[Len(wr)].id>> ELSE <<>>])
DrainPart == /\ "part" \in Ops /\ wr # <<>>
             /\ \E n \in Parts : /\ off + n < Sum(wr)
                                 /\ off' = off + n /\ UNCHANGED <<up, buf, wr>>
                                 /\ Emit("drain", <<n>>, [R0 EXCEPT !.sent = SentIds(n)])
\* the transport fails: the whole batch is given back to the application, nothing else is written until somebody sends
Fail == /\ "werr" \in Ops /\ wr # <<>>
        /\ wr' = <<>> /\ off' = 0 /\ UNCHANGED <<up, buf>>
        /\ Emit("werr", <<>>, [R0 EXCEPT !.err = IdsOf(wr)])
\* the application sends what was given back again, from within the notification of the failure
Resend == /\ "resend" \in Ops /\ wr # <<>>
          /\ \E prior \in BOOLEAN : /\ buf' = (IF prior THEN wr \o buf ELSE buf \o wr) /\ wr' = <<>> /\ off' = 0 /\ UNCHANGED up
                                   /\ Emit("resend", [prior |-> prior], [R0 EXCEPT !.err = IdsOf(wr)])
Pop == /\ "pop" \in Ops
       /\ buf' = (IF buf = <<>> THEN buf ELSE Tail(buf)) /\ UNCHANGED <<up, wr, off>>
       /\ Emit("pop", <<>>, [R0 EXCEPT !.popped = IF buf = <<>> THEN <<>> ELSE <<buf[1].id>>])
PopAll == /\ "popall" \in Ops
          /\ buf' = <<>> /\ UNCHANGED <<up, wr, off>>
          /\ Emit("popall", <<>>, [R0 EXCEPT !.popped = IdsOf(buf)])
Next == Start \/ Send \/ SendEmpty \/ DrainAll \/ DrainPart \/ Fail \/ Resend \/ Pop \/ PopAll
Spec == Init /\ [][Next]_vars /\ WF_vars(DrainAll)

NoDup == Len(buf) + Len(wr) = Cardinality(Used)
Bounded == off >= 0 /\ (wr # <<>> => off < Sum(wr)) /\ (wr = <<>> => off = 0)
\* C08: with the link up, something pending means something is being written (unless the transport failed)
NothingLeft == ({"werr", "resend"} \cap Ops = {} /\ up /\ buf # <<>>) => wr # <<>>
\* C05: only a send with the permission (or one which found the buffer available) takes the buffer over the limit
=============================================================================
