---------------------------- MODULE HeartbeatPair ----------------------------
(* Two ends which both send heartbeats, over a network that takes at most D seconds: as long as both live and the network works neither end reports
   the other dead, whatever they send otherwise, and when one goes silent the other one notices within I * (M + 1) + D seconds. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS I, M, D
VARIABLES left, ss, sr, net, cut, since, dead
\* net[e]: ages of what is under way to e; cut: the end which went silent; since: for how long
Ends == {1, 2}
Peer(e) == 3 - e
vars == <<left, ss, sr, net, cut, since, dead>>
Init == left \in [Ends -> 1 .. I] /\ ss = [e \in Ends |-> I] /\ sr = [e \in Ends |-> 0] /\ net = [e \in Ends |-> {}] /\ cut = 0 /\ since = 0 /\ dead = {}
Live(e) == cut # e
\* a second passes: nothing is late, each end checks when its time has come (reports before it sends)
Tick == /\ \A e \in Ends : \A a \in net[e] : a < D
        /\ cut = 0 \/ since < 100
        /\ LET due == {e \in Ends : left[e] = 1 /\ Live(e)}
               beat == {e \in due : ss[e] + 1 >= I}
           IN /\ left' = [e \in Ends |-> IF left[e] = 1 THEN I ELSE left[e] - 1]
              /\ sr' = [e \in Ends |-> IF sr[e] > I * M + I + D THEN sr[e] ELSE sr[e] + 1]
              /\ ss' = [e \in Ends |-> IF e \in beat THEN 0 ELSE IF ss[e] >= I THEN I ELSE ss[e] + 1]
              /\ dead' = dead \cup {e \in due : sr[e] + 1 >= I * M}
              /\ net' = [e \in Ends |-> {a + 1 : a \in net[e]} \cup (IF Peer(e) \in beat THEN {0} ELSE {})]
        /\ since' = (IF cut = 0 THEN 0 ELSE IF since > I * M + I + D THEN since ELSE since + 1) /\ UNCHANGED cut
Send(e) == Live(e) /\ ss[e] > 0 /\ ss' = [ss EXCEPT ![e] = 0] /\ net' = [net EXCEPT ![Peer(e)] = @ \cup {0}] /\ UNCHANGED <<left, sr, cut, since, dead>>
Arrive(e) == \E a \in net[e] : net' = [net EXCEPT ![e] = @ \ {a}] /\ sr' = [sr EXCEPT ![e] = 0] /\ UNCHANGED <<left, ss, cut, since, dead>>
Cut(e) == cut = 0 /\ cut' = e /\ UNCHANGED <<left, ss, sr, net, since, dead>>
Next == Tick \/ \E e \in Ends : Send(e) \/ Arrive(e) \/ Cut(e)
Spec == Init /\ [][Next]_vars
NotWhileAlive == cut = 0 => dead = {}
InTime == cut # 0 /\ since >= I * (M + 1) + D => Peer(cut) \in dead
=============================================================================
