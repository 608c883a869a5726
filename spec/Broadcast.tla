------------------------------ MODULE Broadcast ------------------------------
(* Broadcasting to the links in a container (a server or the clients of one process). A link is offered a broadcast iff it is in the container;
   what it does with it is up to its own flow control. Messages are of one size; the send buffer takes messages as long as there are less
   than Cap of them. Ids are reused (the smallest free one). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS H, N, Cap,      \* links, ids, limit of each send buffer
          Client,         \* links have to be connected first
          Ops, EMIT
VARIABLES at, life, q, w
vars == <<at, life, q, w>>
Hs == 1..H
\* at: none, live (in the container), inv (removed); life: wait, up, down; q: the send buffer, w: being written
St == [at |-> at, life |-> life, q |-> q, w |-> w]
Used == UNION {{q[h][i] : i \in 1..Len(q[h])} \cup {w[h][i] : i \in 1..Len(w[h])} : h \in Hs}
NewId(S) == CHOOSE i \in 1..(N + 2) : i \notin S /\ \A j \in 1..(i - 1) : j \in S
Ids(n) == LET a == NewId(Used) IN IF n = 1 THEN <<a>> ELSE <<a, NewId(Used \cup {a})>>
Live == {h \in Hs : at[h] = "live"}
Seen(h) == at'[h] = "live" \/ life'[h] = "up"
Obs == [q |-> [h \in Hs |-> IF Seen(h) THEN Len(q'[h]) ELSE -1], w |-> [h \in Hs |-> IF Seen(h) THEN w'[h] ELSE <<>>]]
Emit(k, a, r) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> a, res |-> r @@ Obs], post |-> St'])) ELSE TRUE
None == <<>>
R0 == [ok |-> TRUE, sent |-> [h \in Hs |-> <<>>]]
Init == /\ at = [h \in Hs |-> "none"] /\ life = [h \in Hs |-> "wait"] /\ q = [h \in Hs |-> <<>>] /\ w = [h \in Hs |-> <<>>]
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE

\* [q, w] of a link after its buffer has become b: an idle link which is up writes everything it has
Settled(up, b, x) == IF up /\ x = <<>> THEN [q |-> <<>>, w |-> b] ELSE [q |-> b, w |-> x]
Set(h, s) == q' = [q EXCEPT ![h] = s.q] /\ w' = [w EXCEPT ![h] = s.w]
Add(h) == /\ at[h] = "none" /\ \A k \in 1..(h - 1) : at[k] /= "none"
          /\ at' = [at EXCEPT ![h] = "live"] /\ life' = [life EXCEPT ![h] = IF Client THEN "wait" ELSE "up"] /\ UNCHANGED <<q, w>>
          /\ Emit("add", <<h>>, R0)
Up(h) == /\ Client /\ at[h] /= "none" /\ life[h] = "wait" /\ life' = [life EXCEPT ![h] = "up"] /\ UNCHANGED at /\ Set(h, Settled(TRUE, q[h], w[h])) /\ Emit("up", <<h>>, R0)
\* removed from the container, but still connected
Del(h) == /\ "del" \in Ops /\ at[h] = "live" /\ life[h] = "up" /\ at' = [at EXCEPT ![h] = "inv"] /\ UNCHANGED <<life, q, w>> /\ Emit("del", <<h>>, R0)
\* broken: what was being written is given back
Shut(h) == /\ life[h] = "up" /\ at[h] /= "none" /\ life' = [life EXCEPT ![h] = "down"] /\ w' = [w EXCEPT ![h] = <<>>] /\ UNCHANGED <<at, q>> /\ Emit("shut", <<h>>, R0)
\* time passes: broken links are closed and leave the container; new links take their places
Pass == /\ \E h \in Hs : life[h] = "down" /\ at[h] /= "none"
        /\ LET D == {h \in Hs : life[h] = "down"} IN
           /\ at' = [h \in Hs |-> IF h \in D THEN "none" ELSE at[h]] /\ life' = [h \in Hs |-> IF h \in D THEN "wait" ELSE life[h]]
           /\ q' = [h \in Hs |-> IF h \in D THEN <<>> ELSE q[h]] /\ w' = [h \in Hs |-> IF h \in D THEN <<>> ELSE w[h]]
        /\ Emit("pass", <<>>, R0)
Written(h) == /\ w[h] /= <<>> /\ Set(h, Settled(TRUE, q[h], <<>>)) /\ UNCHANGED <<at, life>> /\ Emit("written", <<h>>, [R0 EXCEPT !.sent[h] = w[h]])
Put(b, m, prior) == IF prior THEN m \o b ELSE b \o m
Fits(h, ovf) == ovf \/ Len(q[h]) < Cap
Send(h) == /\ "send" \in Ops /\ at[h] /= "none" /\ life[h] /= "down" /\ Cardinality(Used) < N /\ UNCHANGED <<at, life>>
           /\ \E ovf \in BOOLEAN : \E prior \in BOOLEAN :
              IF Fits(h, ovf) THEN Set(h, Settled(life[h] = "up", Put(q[h], Ids(1), prior), w[h])) /\ Emit("send", <<h, Ids(1)[1], ovf, prior>>, R0)
              ELSE UNCHANGED <<q, w>> /\ Emit("send", <<h, Ids(1)[1], ovf, prior>>, [R0 EXCEPT !.ok = FALSE])
\* a message (or two at once) to all of them
Bcast(n, ovf, prior) ==
    LET m == Ids(n) IN
    /\ Cardinality(Used) + n <= N /\ UNCHANGED <<at, life>>
    /\ LET r == [h \in Hs |-> IF h \in Live /\ Fits(h, ovf) THEN Settled(life[h] = "up", Put(q[h], m, prior), w[h]) ELSE [q |-> q[h], w |-> w[h]]] IN
       q' = [h \in Hs |-> r[h].q] /\ w' = [h \in Hs |-> r[h].w]
    /\ Emit("bcast", <<FALSE, ovf, prior, m, <<>>>>, R0)
\* the safe form waits for each link which is up but whose buffer is full: until it has written what it was writing, or it breaks (B)
Safe(n, ovf, prior, B) ==
    LET m == Ids(n)
        F == {h \in Live : life[h] = "up" /\ ~Fits(h, ovf)}
    IN
    /\ Cardinality(Used) + n <= N /\ B \subseteq F /\ UNCHANGED at
    /\ life' = [h \in Hs |-> IF h \in B THEN "down" ELSE life[h]]
    /\ LET r == [h \in Hs |-> CASE h \in B -> [q |-> q[h], w |-> <<>>]
                                [] h \in F \ B -> [q |-> m, w |-> q[h]]
                                [] h \in Live \ F /\ Fits(h, ovf) -> Settled(life[h] = "up", Put(q[h], m, prior), w[h])
                                [] OTHER -> [q |-> q[h], w |-> w[h]]]
       IN q' = [h \in Hs |-> r[h].q] /\ w' = [h \in Hs |-> r[h].w]
    /\ Emit("bcast", <<TRUE, ovf, prior, m, SetToSortSeq(B, LAMBDA a, b : a < b)>>, [R0 EXCEPT !.sent = [h \in Hs |-> IF h \in F \ B THEN w[h] ELSE <<>>]])
Next == \/ \E h \in Hs : Add(h) \/ Up(h) \/ Del(h) \/ Shut(h) \/ Written(h) \/ Send(h)
        \/ Pass
        \/ \E n \in (IF "two" \in Ops THEN {1, 2} ELSE {1}) : \E ovf \in BOOLEAN : \E prior \in BOOLEAN : Bcast(n, ovf, prior) \/ \E B \in SUBSET Hs : Safe(n, ovf, prior, B)
Spec == Init /\ [][Next]_vars

\* what is promised
Pend(h) == q[h] \o w[h]
Distinct == \A h \in Hs : IsInjective(Pend(h))                             \* at most once per link
NoIdle == \A h \in Hs : life[h] = "up" /\ q[h] /= <<>> => w[h] /= <<>>     \* nothing waits on an idle link
Within == \A h \in Hs : at[h] = "none" => Pend(h) = <<>>
Order == \A h \in Hs : \A a \in Used : \A b \in Used :                     \* messages which stay keep their order, whatever else is sent
           LET P(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
               In(s, x) == \E i \in 1..Len(s) : s[i] = x
               o == w[h] \o q[h] o2 == w'[h] \o q'[h]
           IN (a /= b /\ In(o, a) /\ In(o, b) /\ In(o2, a) /\ In(o2, b) /\ P(o, a) < P(o, b)) => P(o2, a) < P(o2, b)
Kept == [][Order]_vars
=============================================================================
