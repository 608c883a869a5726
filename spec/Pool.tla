-------------------------------- MODULE Pool --------------------------------
(* An object pool (a server's or a client container's): live objects, removed objects, recycling, restoration of ids.
   Objects live in slots 1..H; a slot is free again after its object was destroyed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS H, Limit,           \* slots; configured maximum of live objects
          Client,           \* objects connect first
          Reuse, Clear,     \* ST_ASIO_REUSE_OBJECT; ST_ASIO_CLEAR_OBJECT_INTERVAL: closed objects are kicked out by the pool, not by themselves
          LastId, Foreign,  \* ids issued by the pool at most; ids chosen by the application
          Ops, EMIT
VARIABLES obj, inv, cl, nid
vars == <<obj, inv, cl, nid>>
Hs == 1..H
\* at: none (created), live, inv (removed), gone; life: new, wait (for being connected), up, closing, closed; held: the application holds a reference
None == [id |-> 0, at |-> "gone", life |-> "new", held |-> FALSE]
St == [obj |-> obj, inv |-> inv, cl |-> cl, nid |-> nid]
LiveSet(o) == {h \in Hs : o[h].at = "live"}
SortHs(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
Obs == [live |-> [i \in 1..Cardinality(LiveSet(obj')) |-> LET h == SortHs(LiveSet(obj'))[i] IN <<h, obj'[h].id>>],
        inv |-> SortHs({h \in Hs : obj'[h].at = "inv"}), gone |-> SortHs({h \in Hs : obj'[h].at = "gone"}),
        up |-> SortHs({h \in Hs : obj'[h].life = "up"})]
Emit(k, a, r) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> a, res |-> [ok |-> r] @@ Obs], post |-> St'])) ELSE TRUE
Init == /\ obj = [h \in Hs |-> None] /\ inv = <<>> /\ cl = <<>> /\ nid = 0
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE

Free(h) == obj[h].at = "inv" /\ ~obj[h].held /\ obj[h].life = "closed"
FirstFree(s) == CHOOSE i \in 1..Len(s) : Free(s[i]) /\ \A j \in 1..(i - 1) : ~Free(s[j])
Without(s, h) == SelectSeq(s, LAMBDA x : x # h)
New(h) == [id |-> nid + 1, at |-> "none", life |-> "new", held |-> TRUE]
Create == /\ nid < LastId
          /\ IF Reuse /\ \E h \in Hs : Free(h)
             THEN LET h == inv[FirstFree(inv)] IN obj' = [obj EXCEPT ![h] = New(h)] /\ inv' = Without(inv, h) /\ nid' = nid + 1 /\ UNCHANGED cl /\ Emit("create", <<h, TRUE>>, nid + 1)
             ELSE \E h \in Hs : /\ obj[h].at = "gone" /\ \A k \in 1..(h - 1) : obj[k].at # "gone"
                                /\ obj' = [obj EXCEPT ![h] = New(h)] /\ nid' = nid + 1 /\ UNCHANGED <<inv, cl>> /\ Emit("create", <<h, FALSE>>, nid + 1)
IdLive(i) == \E h \in Hs : obj[h].at = "live" /\ obj[h].id = i
Add == \E h \in Hs : /\ obj[h].at \in {"none", "live"} /\ obj[h].held /\ UNCHANGED <<inv, cl, nid>>
          /\ IF obj[h].at = "none" /\ Cardinality(LiveSet(obj)) < Limit /\ ~IdLive(obj[h].id)
             THEN obj' = [obj EXCEPT ![h].at = "live", ![h].life = IF Client THEN "wait" ELSE "up"] /\ Emit("add", <<h>>, 1)
             ELSE UNCHANGED obj /\ Emit("add", <<h>>, 0)
Drop == \E h \in Hs : /\ obj[h].held /\ UNCHANGED <<inv, cl, nid>>
          /\ obj' = [obj EXCEPT ![h] = IF obj[h].at = "none" THEN None ELSE [@ EXCEPT !.held = FALSE]] /\ Emit("drop", <<h>>, 1)
\* the application looks the object up by id and keeps it
Hold == "hold" \in Ops /\ \E h \in Hs : /\ ~obj[h].held /\ obj[h].at \in {"live", "inv"} /\ UNCHANGED <<inv, cl, nid>>
          /\ (obj[h].at = "inv" => \A k \in Hs : k # h /\ obj[k].at = "inv" => obj[k].id # obj[h].id)
          /\ obj' = [obj EXCEPT ![h].held = TRUE] /\ Emit("hold", <<h, IF obj[h].at = "live" THEN 1 ELSE 0, obj[h].id>>, 1)
ToInv(o, h) == [o EXCEPT ![h].at = "inv"]
\* removal by reference (a server) or by id (a client container), without shutting the link down
Del == "del" \in Ops /\ \E h \in Hs : /\ obj[h].at \in {"live", "inv"} /\ (IF Client THEN obj[h].at = "live" \/ ~IdLive(obj[h].id) ELSE obj[h].held) /\ UNCHANGED <<cl, nid>>
          /\ IF obj[h].at = "live" THEN obj' = ToInv(obj, h) /\ inv' = Append(inv, h) /\ Emit("del", <<h, obj[h].id>>, 1)
             ELSE UNCHANGED <<obj, inv>> /\ Emit("del", <<h, obj[h].id>>, 0)
Down(o, h) == IF o[h].life \in {"up", "wait"} THEN [o EXCEPT ![h].life = "closing"] ELSE o
DownCl(h) == IF obj[h].life \in {"up", "wait"} THEN Append(cl, h) ELSE cl
\* removal and shutdown
Kill == "kill" \in Ops /\ \E h \in Hs : /\ obj[h].at \in {"live", "inv"} /\ obj[h].held /\ UNCHANGED nid /\ cl' = DownCl(h)
          /\ IF obj[h].at = "live" THEN obj' = Down(ToInv(obj, h), h) /\ inv' = Append(inv, h) ELSE obj' = Down(obj, h) /\ UNCHANGED inv
          /\ Emit("kill", <<h>>, 0)
Break == \E h \in Hs : /\ obj[h].life = "up" /\ obj' = Down(obj, h) /\ cl' = DownCl(h) /\ UNCHANGED <<inv, nid>> /\ Emit("break", <<h>>, 0)
\* time passes: closing links are closed (in order) and remove themselves
Left == SelectSeq(cl, LAMBDA h : obj[h].at = "live" /\ ~Clear)
Pass == /\ cl # <<>> \/ (Client /\ \E h \in Hs : obj[h].life = "wait")
        /\ cl' = <<>> /\ inv' = inv \o Left /\ UNCHANGED nid
        /\ obj' = [h \in Hs |-> IF obj[h].life = "wait" THEN [obj[h] EXCEPT !.life = "up"]
                                ELSE IF obj[h].life = "closing" THEN [obj[h] EXCEPT !.life = "closed", !.at = IF @ = "live" /\ ~Clear THEN "inv" ELSE @] ELSE obj[h]]
        /\ Emit("pass", <<>>, 0)
\* kick out closed objects which are still live (order unspecified: not combined with recycling)
Kick == "kick" \in Ops /\ LET K == {h \in Hs : obj[h].at = "live" /\ obj[h].life = "closed"} IN
        /\ obj' = [h \in Hs |-> IF h \in K THEN [obj[h] EXCEPT !.at = "inv"] ELSE obj[h]] /\ inv' = inv \o SortHs(K) /\ UNCHANGED <<cl, nid>>
        /\ Emit("kick", <<>>, Cardinality(K))
FreeN == "free" \in Ops /\ \E n \in (IF Clear THEN {0, H + 1} ELSE {0, 1, H + 1}) :
        LET F == SelectSeq(inv, Free) G == SubSeq(F, 1, IF n < Len(F) THEN n ELSE Len(F)) D == {G[i] : i \in 1..Len(G)} IN
        /\ obj' = [h \in Hs |-> IF h \in D THEN None ELSE obj[h]] /\ inv' = SelectSeq(inv, LAMBDA h : h \notin D) /\ UNCHANGED <<cl, nid>>
        /\ Emit("free", <<n>>, Len(G))
\* the pool's own timers: kick closed objects out (if Clear), free what can be freed
Sweep == /\ "sweep" \in Ops /\ cl' = <<>> /\ UNCHANGED nid
         /\ LET life(h) == IF obj[h].life = "wait" THEN "up" ELSE IF obj[h].life = "closing" THEN "closed" ELSE obj[h].life
                out == {h \in Hs : obj[h].at = "live" /\ life(h) = "closed"}
                all == inv \o SelectSeq(cl, LAMBDA h : h \in out) \o SortHs({h \in out : \A i \in 1..Len(cl) : cl[i] # h})
                D == {h \in Hs : (h \in out \/ obj[h].at = "inv") /\ ~obj[h].held /\ life(h) = "closed"}
            IN /\ obj' = [h \in Hs |-> IF h \in D THEN None ELSE IF h \in out THEN [obj[h] EXCEPT !.life = "closed", !.at = "inv"] ELSE [obj[h] EXCEPT !.life = life(h)]]
               /\ inv' = SelectSeq(all, LAMBDA h : h \notin D)
         /\ Emit("sweep", <<>>, 0)
\* the link h continues the removed one with the id i
FirstInv(i) == CHOOSE k \in 1..Len(inv) : obj[inv[k]].id = i /\ \A j \in 1..(k - 1) : obj[inv[j]].id # i
Restore == "restore" \in Ops /\ \E h \in Hs : \E i \in (1..LastId) \cup Foreign :
        /\ obj[h].held /\ obj[h].at \in {"live", "inv"} /\ obj[h].life = "up" /\ UNCHANGED <<cl, nid>>
        /\ LET found == \E k \in 1..Len(inv) : obj[inv[k]].id = i
               k == FirstInv(i)
               ok == found /\ Free(inv[k]) /\ inv[k] # h /\ (obj[h].id = i \/ (obj[h].at = "live" /\ ~IdLive(i)))
           IN IF ok THEN /\ obj' = [obj EXCEPT ![h].id = i, ![inv[k]] = None] /\ inv' = Without(inv, inv[k]) /\ Emit("restore", <<h, i>>, 1)
              ELSE /\ UNCHANGED obj
                   \* the candidate is put back at the end if only the id was in the way
                   /\ inv' = (IF found /\ Free(inv[k]) THEN Append(Without(inv, inv[k]), inv[k]) ELSE inv)
                   /\ Emit("restore", <<h, i>>, 0)
InitId == "init" \in Ops /\ \E h \in Hs : \E i \in Foreign :
        /\ obj[h].held /\ obj[h].at \in {"live", "inv"} /\ UNCHANGED <<cl, nid, inv>>
        /\ IF obj[h].id = i THEN UNCHANGED obj /\ Emit("init", <<h, i>>, 1)
           ELSE IF obj[h].at = "live" /\ ~IdLive(i) THEN obj' = [obj EXCEPT ![h].id = i] /\ Emit("init", <<h, i>>, 1)
           ELSE UNCHANGED obj /\ Emit("init", <<h, i>>, 0)
Next == Create \/ Add \/ Drop \/ Hold \/ Del \/ Kill \/ Break \/ Pass \/ Kick \/ FreeN \/ Sweep \/ Restore \/ InitId
Spec == Init /\ [][Next]_vars

\* C13
Bounded == Cardinality(LiveSet(obj)) <= Limit
UniqueIds == \A a, b \in Hs : a # b /\ obj[a].at = "live" /\ obj[b].at = "live" => obj[a].id # obj[b].id
OnePlace == /\ \A h \in Hs : obj[h].at = "inv" <=> \E k \in 1..Len(inv) : inv[k] = h
            /\ \A i, j \in 1..Len(inv) : i # j => inv[i] # inv[j]
\* C14: nothing is destroyed or recycled while it is held or not yet closed
Safe == [][\A h \in Hs : obj[h].at \in {"live", "inv"} /\ (obj'[h].at \in {"gone", "none"}) =>
              ~obj[h].held /\ IF "sweep" \in Ops THEN obj[h].life \in {"closing", "closed"} ELSE obj[h].life = "closed" /\ obj[h].at = "inv"]_vars
=============================================================================
