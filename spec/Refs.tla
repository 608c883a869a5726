-------------------------------- MODULE Refs --------------------------------
(* References of a service pump's io_contexts which its services and their sockets hold. Where a new object is placed is in TraceRefs. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS NC, NU,   \* clients and udp sockets
          K,        \* sockets a listening server keeps for accepting
          Extra,    \* additional references at any time
          Later,    \* io_contexts which may be added at run time
          Ops, EMIT
VARIABLES st, has, held, conn, listen, ctx
\* held: references of each object; conn: connected clients; has: existing services
vars == <<st, has, held, conn, listen, ctx>>
St == [st |-> st, has |-> has, held |-> held, conn |-> conn, listen |-> listen, ctx |-> ctx]
C(i) == "c" \o ToString(i)
U(i) == "u" \o ToString(i)
Sv(k) == "s" \o k
Clients == {C(i) : i \in 1 .. NC}
Udps == {U(i) : i \in 1 .. NU}
Links == Clients \cup {"sc"}
Keys == {"sp", "sa", "mp", "up", "sc"} \cup Clients \cup Udps \cup {Sv(k) : k \in Links}
Sum(h) == FoldSet(LAMBDA k, a : a + h[k], 0, Keys)
Total == Sum(held') + (IF listen' THEN K ELSE 0)
Seq_(S) == SetToSeq(S)
Of(h) == [k \in {x \in Keys : h[x] > 0} |-> h[k]]
A0 == [drop |-> <<>>, conn |-> <<>>, place |-> <<>>, back |-> <<>>, pre |-> 0]
Emit(k, a, acts) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> a, res |-> [acts |-> acts, total |-> Total, conn |-> Seq_(conn'), held |-> [x \in Keys |-> held'[x]], listen |-> listen', on |-> st' = "on", ctx |-> ctx']], post |-> St'])) ELSE TRUE
Init == /\ st = "off" /\ has = {} /\ held = [k \in Keys |-> 0] /\ conn = {} /\ listen = FALSE /\ ctx = 0
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE
\* what is held beyond one reference per object
Over(h) == FoldSet(LAMBDA k, a : a + (IF h[k] > 1 THEN h[k] - 1 ELSE 0), 0, Keys)
Set(h, S, n) == [k \in Keys |-> IF k \in S THEN n ELSE h[k]]
\* services, created while the pump is off
New == \E s \in {"srv", "mc", "uc", "sc"} : /\ st = "off" /\ s \notin has /\ has' = has \cup {s}
       /\ LET p == CASE s = "srv" -> {"sp", "sa"} [] s = "mc" -> {"mp"} [] s = "uc" -> {"up"} [] OTHER -> {"sc"} IN
          held' = Set(held, p, 1) /\ UNCHANGED <<st, conn, listen, ctx>> /\ Emit("new", <<s>>, [A0 EXCEPT !.place = Seq_({<<x, 1>> : x \in p})])
Destroy == \E s \in has : /\ "destroy" \in Ops /\ st = "off" /\ has' = has \ {s}
       /\ LET p == CASE s = "srv" -> {"sp", "sa"} [] s = "mc" -> {"mp"} \cup Clients [] s = "uc" -> {"up"} \cup Udps [] OTHER -> {"sc"} IN
          held' = Set(held, p, 0) /\ UNCHANGED <<st, conn, listen, ctx>> /\ Emit("destroy", <<s>>, [A0 EXCEPT !.drop = Seq_({x \in p : held[x] > 0})])
\* clients which can reach the server connect: the server takes a prepared socket for each and prepares another one
Connects(want) == IF listen' THEN want ELSE {}
Joined(h, S) == Set(h, {Sv(k) : k \in S}, 1)
Alive == {k \in Links : held[k] > 0 /\ (k = "sc" => "sc" \in has)}
Start == /\ st = "off" /\ has # {} /\ st' = "on" /\ listen' = ("srv" \in has)
         /\ LET sc == IF "sc" \in has /\ held["sc"] = 0 THEN {"sc"} ELSE {}
                now == Connects({k \in Links : held[k] > 0} \cup sc) IN
            /\ held' = Joined(Set(held, sc, 1), now) /\ conn' = now
            /\ UNCHANGED <<has, ctx>> /\ Emit("start", <<>>, [A0 EXCEPT !.back = Seq_(sc), !.pre = IF listen' THEN K ELSE 0, !.conn = Seq_(now)])
Stop == /\ st = "on" /\ st' = "off" /\ listen' = FALSE /\ conn' = {}
        /\ LET d == {k \in Links \cup Udps \cup {Sv(x) : x \in Links} : held[k] > 0} IN
           held' = Set(held, d, 0) /\ UNCHANGED <<has, ctx>> /\ Emit("stop", <<>>, [A0 EXCEPT !.drop = Seq_(d), !.pre = IF listen THEN -K ELSE 0])
Add == \E i \in 1 .. NC, x \in 0 .. 2 : /\ "mc" \in has /\ held[C(i)] = 0 /\ Over(held) + x <= Extra /\ (\A j \in 1 .. (i - 1) : held[C(j)] > 0)
       /\ UNCHANGED <<st, has, listen, ctx>>
       /\ LET now == IF st = "on" /\ listen THEN {C(i)} ELSE {} IN
          held' = Joined([held EXCEPT ![C(i)] = 1 + x], now) /\ conn' = conn \cup now /\ Emit("add", <<C(i), x>>, [A0 EXCEPT !.place = <<<<C(i), 1 + x>>>>, !.conn = Seq_(now)])
AddU == \E i \in 1 .. NU, x \in 0 .. 1 : /\ "uc" \in has /\ held[U(i)] = 0 /\ Over(held) + x <= Extra /\ (\A j \in 1 .. (i - 1) : held[U(j)] > 0)
        /\ held' = [held EXCEPT ![U(i)] = 1 + x] /\ UNCHANGED <<st, has, conn, listen, ctx>> /\ Emit("addu", <<U(i), x>>, [A0 EXCEPT !.place = <<<<U(i), 1 + x>>>>])
\* a link is given up by its client, by its server (the client connects again, if there is a server), or renewed by its client
Close == \E k \in Links \cup Udps : /\ st = "on" /\ held[k] > 0 /\ (k \in Links => k \in conn \/ "closeun" \in Ops)
         /\ LET d == {k} \cup (IF k \in conn THEN {Sv(k)} ELSE {}) IN
            held' = Set(held, d, 0) /\ conn' = conn \ {k} /\ UNCHANGED <<st, has, listen, ctx>> /\ Emit("close", <<k>>, [A0 EXCEPT !.drop = Seq_(d)])
Renew == \E k \in conn, who \in {"kick", "renew"} : /\ st = "on"
         /\ UNCHANGED <<st, has, listen, ctx>>
         /\ LET now == IF listen THEN {k} ELSE {} IN
            held' = Joined([held EXCEPT ![Sv(k)] = 0], now) /\ conn' = (conn \ {k}) \cup now /\ Emit(who, <<k>>, [A0 EXCEPT !.drop = <<Sv(k)>>, !.conn = Seq_(now)])
Unlisten == /\ "listen" \in Ops /\ listen /\ listen' = FALSE /\ UNCHANGED <<st, has, held, conn, ctx>> /\ Emit("unlisten", <<>>, [A0 EXCEPT !.pre = -K])
Listen == /\ "listen" \in Ops /\ st = "on" /\ "srv" \in has /\ ~listen /\ listen' = TRUE
          /\ LET now == {k \in Links : held[k] > 0} \ conn IN
             held' = Joined(held, now) /\ conn' = conn \cup now /\ UNCHANGED <<st, has, ctx>> /\ Emit("listen", <<>>, [A0 EXCEPT !.pre = K, !.conn = Seq_(now)])
\* references added and taken back by the application; more than there are cannot be taken back
Inc == \E k \in Keys \ {"sc"}, n \in 1 .. 2 : /\ held[k] > 0 /\ Over(held) + n <= Extra /\ held' = [held EXCEPT ![k] = @ + n] /\ UNCHANGED <<st, has, conn, listen, ctx>> /\ Emit("inc", <<k, n>>, A0)
Dec == \E k \in Keys \ {"sc"}, n \in {1, 2, 4} : /\ held[k] > 0 /\ (held[k] = n => k \in {"sp", "sa", "mp", "up"} /\ "zero" \in Ops)
       /\ held' = [held EXCEPT ![k] = IF n <= @ THEN @ - n ELSE @] /\ UNCHANGED <<st, has, conn, listen, ctx>> /\ Emit("dec", <<k, n>>, A0)
MoreCtx == /\ ctx < Later /\ st = "on" /\ ctx' = ctx + 1 /\ UNCHANGED <<st, has, held, conn, listen>> /\ Emit("ctx", <<>>, A0)
Next == New \/ Destroy \/ Start \/ Stop \/ Add \/ AddU \/ Close \/ Renew \/ Unlisten \/ Listen \/ Inc \/ Dec \/ MoreCtx
Spec == Init /\ [][Next]_vars
\* an object which is gone holds nothing; the sockets of a server exist for the links which are connected
Held == /\ \A k \in Links : (held[Sv(k)] > 0) = (k \in conn)
        /\ conn \subseteq {k \in Links : held[k] > 0}
        /\ (has = {} /\ st = "off" => Sum(held) = 0)
=============================================================================
