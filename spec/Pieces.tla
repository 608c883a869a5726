------------------------------- MODULE Pieces -------------------------------
(* The forms which take a std::string, several of them or a list queue the head and the parts of one message as separate pieces.  As long as pieces are
   only appended and taken from the head (How = {}) a message reaches the wire in one piece (Whole).  Whatever puts something before the first piece or
   takes pieces away one by one can split a message whose first piece is gone already:
     "prior"  a message is sent with priority;   "pop"  the application takes the first pending message;   "discard"  the buffer is shrunk.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS How, Batch,  \* pieces handed to the transport at once
          M, K,        \* at most M messages of one or K pieces
          Full,        \* with "discard": so many pieces fill the buffer, then the first one is dropped
          EMIT
VARIABLES n, buf, wr, lastp, split
vars == <<n, buf, wr, lastp, split>>
St == [n |-> n, buf |-> buf, wr |-> wr, lastp |-> lastp, split |-> split]
Emit(k, a) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> a], post |-> St'])) ELSE TRUE
Msg(m, ks) == [i \in 1..ks |-> <<m, i, ks>>]
Least(a, b) == IF a < b THEN a ELSE b
Put(q, w) == LET b == IF w = <<>> THEN Least(Batch, Len(q)) ELSE 0 IN buf' = SubSeq(q, b + 1, Len(q)) /\ wr' = w \o SubSeq(q, 1, b)
Init == n = 0 /\ buf = <<>> /\ wr = <<>> /\ lastp = <<0, 1, 1>> /\ split = FALSE /\ (IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE)
Send == \E ks \in {1, K}, p \in (IF "prior" \in How THEN BOOLEAN ELSE {FALSE}) :
        /\ n < M /\ n' = n + 1
        /\ LET q == IF "discard" \in How /\ Len(buf) >= Full THEN Tail(buf) ELSE buf IN Put(IF p THEN Msg(n + 1, ks) \o q ELSE q \o Msg(n + 1, ks), wr)
        /\ UNCHANGED <<lastp, split>> /\ Emit("send", <<n + 1, ks, p>>)
RECURSIVE Bad(_, _)   \* after the piece `last` the pieces s are written
Bad(last, s) == IF s = <<>> THEN FALSE ELSE s[1] # (IF last[2] < last[3] THEN <<last[1], last[2] + 1, last[3]>> ELSE <<s[1][1], 1, s[1][3]>>) \/ Bad(s[1], Tail(s))
Drain == wr # <<>> /\ split' = (split \/ Bad(lastp, wr)) /\ lastp' = wr[Len(wr)] /\ Put(buf, <<>>) /\ UNCHANGED n /\ Emit("drain", wr)
Pop == "pop" \in How /\ buf # <<>> /\ buf' = Tail(buf) /\ UNCHANGED <<n, wr, lastp, split>> /\ Emit("pop", buf[1])
Next == Send \/ Drain \/ Pop
Spec == Init /\ [][Next]_vars
Whole == ~split
==============================================================================
