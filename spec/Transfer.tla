------------------------------ MODULE Transfer ------------------------------
(* The file transfer of file_server and file_client: a file is fetched or stored over several links at once, each link transfers a range of it.
   A link has a control phase (messages) and a raw phase (nothing but data, its length agreed before). Bytes are <<version, position>>; <<0, 0>> is a hole. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS L,        \* number of links, 0 is the master
          MaxSize,  \* files have up to so many bytes
          NCmds
VARIABLES srv, cli,   \* the file on both sides: a sequence of bytes or None
          op,         \* the running command
          st, off, len, \* client: state, range of each link
          ss, soff, slen, \* server: the same
          up, down,   \* messages on the way
          size, n, orig
vars == <<srv, cli, op, st, off, len, ss, soff, slen, up, down, size, n, orig>>
None == <<<<-1, -1>>>>
Links == 0..L - 1
Content(v, s) == [i \in 1..s |-> <<v, i>>]
Files == {None} \cup {Content(v, s) : v \in {1, 2}, s \in 0..MaxSize}
Part(s, k) == LET o == (s \div L) * k IN <<o, IF k = L - 1 THEN s - o ELSE s \div L>>
Put(f, o, b) == [i \in 1..(IF o + 1 > Len(f) THEN o + 1 ELSE Len(f)) |-> IF i = o + 1 THEN b ELSE IF i <= Len(f) THEN f[i] ELSE <<0, 0>>]
All(x) == [k \in Links |-> x]
Init == /\ srv \in {None} \cup {Content(1, s) : s \in 0..MaxSize} /\ cli \in {None} \cup {Content(2, s) : s \in 0..MaxSize}
        /\ op = "" /\ st = All("idle") /\ off = All(0) /\ len = All(0) /\ ss = All("idle") /\ soff = All(0) /\ slen = All(0)
        /\ up = All(<<>>) /\ down = All(<<>>) /\ size = -1 /\ n = 0 /\ orig = <<srv, cli>>
Send(q, k, m) == [q EXCEPT ![k] = Append(@, m)]
Pop(q, k) == [q EXCEPT ![k] = Tail(@)]
Top(q, k) == IF q[k] = <<>> THEN <<"">> ELSE Head(q[k])
\* commands
Get == /\ op = "" /\ n < NCmds /\ n' = n + 1 /\ op' = "get" /\ size' = -1 /\ cli' = <<>> /\ orig' = <<srv, cli>>
       /\ st' = All("prep") /\ up' = [k \in Links |-> Append(up[k], <<"ask0">>)]
       /\ UNCHANGED <<srv, off, len, ss, soff, slen, down>>
PutF == /\ op = "" /\ n < NCmds /\ n' = n + 1 /\ op' = "put" /\ size' = -1 /\ orig' = <<srv, cli>>
        /\ st' = [st EXCEPT ![0] = "prep"] /\ up' = Send(up, 0, <<"ask10">>)
        /\ UNCHANGED <<srv, cli, off, len, ss, soff, slen, down>>
\* the server, by link
SrvAsk0(k) == /\ Top(up, k)[1] = "ask0" /\ ss[k] # "recv" /\ up' = Pop(up, k) /\ down' = Send(down, k, <<"rep0", IF srv = None THEN -1 ELSE Len(srv)>>)
              /\ ss' = [ss EXCEPT ![k] = IF srv = None THEN "idle" ELSE "prep"] /\ UNCHANGED <<srv, cli, op, st, off, len, soff, slen, size, n, orig>>
SrvAsk1(k) == LET m == Top(up, k) IN
              /\ m[1] = "ask1" /\ ss[k] = "prep" /\ up' = Pop(up, k) /\ ss' = [ss EXCEPT ![k] = IF m[3] > 0 /\ m[2] + m[3] <= Len(srv) THEN "send" ELSE "idle"]
              /\ soff' = [soff EXCEPT ![k] = m[2]] /\ slen' = [slen EXCEPT ![k] = m[3]] /\ UNCHANGED <<srv, cli, op, st, off, len, down, size, n, orig>>
SrvSend(k) == /\ ss[k] = "send" /\ down' = Send(down, k, <<"byte", srv[soff[k] + 1]>>) /\ soff' = [soff EXCEPT ![k] = @ + 1] /\ slen' = [slen EXCEPT ![k] = @ - 1]
              /\ ss' = [ss EXCEPT ![k] = IF slen[k] = 1 THEN "idle" ELSE "send"] /\ UNCHANGED <<srv, cli, op, st, off, len, up, size, n, orig>>
SrvAsk10(k) == /\ Top(up, k)[1] = "ask10" /\ up' = Pop(up, k) /\ srv' = <<>> /\ down' = Send(down, k, <<"rep10">>)
               /\ UNCHANGED <<cli, op, st, off, len, ss, soff, slen, size, n, orig>>
SrvAsk11(k) == LET m == Top(up, k) IN
               /\ m[1] = "ask11" /\ up' = Pop(up, k) /\ ss' = [ss EXCEPT ![k] = "recv"] /\ soff' = [soff EXCEPT ![k] = m[2]] /\ slen' = [slen EXCEPT ![k] = m[3]]
               /\ down' = Send(down, k, <<"rep11">>) /\ UNCHANGED <<srv, cli, op, st, off, len, size, n, orig>>
SrvRecv(k) == /\ ss[k] = "recv" /\ Top(up, k)[1] = "byte" /\ srv' = Put(srv, soff[k], Top(up, k)[2]) /\ up' = Pop(up, k)
              /\ soff' = [soff EXCEPT ![k] = @ + 1] /\ slen' = [slen EXCEPT ![k] = @ - 1] /\ ss' = [ss EXCEPT ![k] = IF slen[k] = 1 THEN "idle" ELSE "recv"]
              /\ UNCHANGED <<cli, op, st, off, len, down, size, n, orig>>
\* the client, by link
CliRep0(k) == LET m == Top(down, k) p == Part(m[2], k) IN
              /\ m[1] = "rep0" /\ st[k] = "prep" /\ down' = Pop(down, k) /\ size' = IF k = 0 THEN m[2] ELSE size
              /\ IF m[2] >= 0 /\ p[2] > 0
                 THEN st' = [st EXCEPT ![k] = "recv"] /\ off' = [off EXCEPT ![k] = p[1]] /\ len' = [len EXCEPT ![k] = p[2]] /\ up' = Send(up, k, <<"ask1", p[1], p[2]>>)
                 ELSE st' = [st EXCEPT ![k] = "idle"] /\ UNCHANGED <<off, len, up>>
              /\ UNCHANGED <<srv, cli, op, ss, soff, slen, n, orig>>
CliRecv(k) == /\ st[k] = "recv" /\ Top(down, k)[1] = "byte" /\ cli' = Put(cli, off[k], Top(down, k)[2]) /\ down' = Pop(down, k)
              /\ off' = [off EXCEPT ![k] = @ + 1] /\ len' = [len EXCEPT ![k] = @ - 1] /\ st' = [st EXCEPT ![k] = IF len[k] = 1 THEN "idle" ELSE "recv"]
              /\ UNCHANGED <<srv, op, ss, soff, slen, up, size, n, orig>>
CliRep10 == /\ Top(down, 0)[1] = "rep10" /\ st[0] = "prep" /\ down' = Pop(down, 0)
            /\ IF cli = None THEN st' = All("idle") /\ UNCHANGED <<off, len, up, size>>
               ELSE LET s == Len(cli) IN
                    /\ size' = s /\ off' = [k \in Links |-> Part(s, k)[1]] /\ len' = [k \in Links |-> Part(s, k)[2]]
                    /\ st' = [k \in Links |-> IF Part(s, k)[2] > 0 THEN "offer" ELSE "idle"]
                    /\ up' = [k \in Links |-> IF Part(s, k)[2] > 0 THEN Append(up[k], <<"ask11", Part(s, k)[1], Part(s, k)[2]>>) ELSE up[k]]
            /\ UNCHANGED <<srv, cli, op, ss, soff, slen, n, orig>>
CliRep11(k) == /\ Top(down, k)[1] = "rep11" /\ st[k] = "offer" /\ down' = Pop(down, k) /\ st' = [st EXCEPT ![k] = "send"]
               /\ UNCHANGED <<srv, cli, op, off, len, ss, soff, slen, up, size, n, orig>>
CliSend(k) == /\ st[k] = "send" /\ up' = Send(up, k, <<"byte", cli[off[k] + 1]>>) /\ off' = [off EXCEPT ![k] = @ + 1] /\ len' = [len EXCEPT ![k] = @ - 1]
              /\ st' = [st EXCEPT ![k] = IF len[k] = 1 THEN "idle" ELSE "send"] /\ UNCHANGED <<srv, cli, op, ss, soff, slen, down, size, n, orig>>
Quiet == st = All("idle") /\ up = All(<<>>) /\ down = All(<<>>) /\ \A k \in Links : ss[k] \notin {"send", "recv"}
End == op # "" /\ Quiet /\ op' = "" /\ UNCHANGED <<srv, cli, st, off, len, ss, soff, slen, up, down, size, n, orig>>
Step(k) == SrvAsk0(k) \/ SrvAsk1(k) \/ SrvSend(k) \/ SrvAsk10(k) \/ SrvAsk11(k) \/ SrvRecv(k) \/ CliRep0(k) \/ CliRecv(k) \/ CliRep11(k) \/ CliSend(k)
Next == Get \/ PutF \/ CliRep10 \/ End \/ \E k \in Links : Step(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(CliRep10) /\ WF_vars(End) /\ \A k \in Links : WF_vars(Step(k))
\* at the end of a command both sides have the source's bytes; a missing source leaves an empty file and destroys nothing of the source
Same == (op # "" /\ Quiet) =>
        IF op = "get" THEN srv = orig[1] /\ cli = IF srv = None THEN <<>> ELSE srv
        ELSE cli = orig[2] /\ srv = IF cli = None THEN <<>> ELSE cli
\* a raw phase is never mixed with control messages: what a link gets while it receives is data
Phases == \A k \in Links : (st[k] = "recv" => Top(down, k)[1] \in {"", "byte"}) /\ (ss[k] = "recv" => Top(up, k)[1] \in {"", "byte"})
                           /\ (st[k] # "recv" => Top(down, k)[1] # "byte")
Ends == op # "" ~> op = ""
==============================================================================
