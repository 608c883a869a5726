------------------------------- MODULE Socks -------------------------------
(* The client of a SOCKS4 or SOCKS5 proxy: what it has to send byte by byte (RFC 1928, RFC 1929, the SOCKS4 protocol), which replies it may accept, and when the
   link counts as connected. The proxy is the environment: it answers in pieces cut anywhere, refuses, answers nonsense, or breaks off. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Ver, Targets, N, Ops, EMIT
VARIABLES ph, step, tgt, auth, rec, out, got, pend
\* ph: new, connecting, write, read, up, closed; step: 1 method, 2 authentication, 3 request; tgt: target asked for; auth: credentials are set
\* out: bytes handed to the transport; got: bytes received of the present reply; pend: messages of the application waiting for the link
vars == <<ph, step, tgt, auth, rec, out, got, pend>>
St == [ph |-> ph, step |-> step, tgt |-> tgt, auth |-> auth, rec |-> rec, out |-> out, got |-> got, pend |-> pend]
Pad(n, c) == [i \in 1 .. n |-> c]
Addr == [v4 |-> <<10, 1, 2, 254>>, v4b |-> <<192, 168, 255, 1>>, v6 |-> <<32, 1, 13, 184, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 1>>,
         d1 |-> Pad(1, 100), d20 |-> Pad(20, 101), d57 |-> Pad(57, 102)]
Port == [v4 |-> <<18, 52>>, v4b |-> <<0, 80>>, v6 |-> <<255, 255>>, d1 |-> <<0, 1>>, d20 |-> <<31, 144>>, d57 |-> <<128, 127>>]
User == <<117, 115, 114>>
Pass == <<112, 119>>
Id4 == <<115, 116, 95, 97, 115, 105, 111, 0>>
Kind(t) == IF t \in {"v4", "v4b"} THEN 1 ELSE IF t = "v6" THEN 4 ELSE 3
Request(s, t, au) ==
  IF Ver = 4 THEN <<4, 1>> \o Port[t] \o Addr[t] \o Id4
  ELSE CASE s = 1 -> IF au THEN <<5, 2, 0, 2>> ELSE <<5, 1, 0>>
         [] s = 2 -> <<1, Len(User)>> \o User \o <<Len(Pass)>> \o Pass
         [] OTHER -> <<5, 1, 0, Kind(t)>> \o (IF Kind(t) = 3 THEN <<Len(Addr[t])>> ELSE <<>>) \o Addr[t] \o Port[t]
\* what the reply received so far means: more (is missing), ok (connected), bad, or the next step
Need(g) == IF g[4] = 1 THEN 10 ELSE IF g[4] = 4 THEN 22 ELSE IF g[4] = 3 THEN 7 + g[5] ELSE 0
Verdict(s, g) ==
  IF Ver = 4 THEN IF Len(g) < 8 THEN "more" ELSE IF g[2] = 90 THEN "ok" ELSE "bad"
  ELSE CASE s = 1 -> IF Len(g) < 2 THEN "more" ELSE IF Len(g) > 2 \/ g[1] # 5 THEN "bad" ELSE IF g[2] = 0 THEN "3" ELSE IF g[2] = 2 /\ auth THEN "2" ELSE "bad"
         [] s = 2 -> IF Len(g) < 2 THEN "more" ELSE IF Len(g) > 2 \/ g[2] # 0 THEN "bad" ELSE "3"
         [] OTHER -> IF Len(g) < 5 THEN "more" ELSE IF g[1] # 5 \/ g[2] # 0 \/ Need(g) = 0 \/ Need(g) > 64 \/ Len(g) > Need(g) THEN "bad" ELSE IF Len(g) < Need(g) THEN "more" ELSE "ok"
Msg == <<0, 3, 55>>  \* what the target says right after the link is established
Tail5(n) == [i \in 1 .. n |-> (i * 37) % 256]
Replies(s) ==
  IF Ver = 4 THEN {<<0, 90>> \o Tail5(6), <<0, 90>> \o Tail5(6) \o Msg, <<0, 91>> \o Tail5(6), <<0, 0>> \o Tail5(6), <<90, 92, 90, 90, 90, 90, 90, 90>>}
  ELSE CASE s = 1 -> {<<5, 0>>, <<5, 2>>, <<5, 255>>, <<5, 1>>, <<5, 0, 0>>, <<5, 2, 0>>, <<4, 0>>, <<72, 84, 84, 80>>}
         [] s = 2 -> {<<1, 0>>, <<1, 1>>, <<1, 255>>, <<1, 0, 0>>}
         [] OTHER -> {<<5, 0, 0, 1>> \o Tail5(6), <<5, 0, 0, 4>> \o Tail5(18), <<5, 0, 0, 3, 0>> \o Tail5(2), <<5, 0, 0, 3, 3>> \o Tail5(5), <<5, 0, 0, 3, 57>> \o Tail5(59),
                      <<5, 0, 0, 3, 58>> \o Tail5(60), <<5, 0, 0, 3, 255>> \o Tail5(257), <<5, 0, 0, 3, 250>> \o Tail5(252), <<5, 0, 0, 3, 128>> \o Tail5(130), <<5, 1, 0, 1>> \o Tail5(6),
                      <<5, 5, 0, 1, 0, 0, 0, 0, 0, 0>>, <<5, 255, 0, 3, 1>> \o Tail5(3), <<5, 0, 0, 2>> \o Tail5(6), <<5, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<5, 0, 0, 1>> \o Tail5(6) \o Msg, <<5, 0, 0, 4>> \o Tail5(19),
                      <<4, 0, 0, 1>> \o Tail5(6), <<5, 0, 0, 255>> \o Tail5(60)}
Cuts(r) == {n \in 1 .. Len(r) : n <= 9 \/ n >= Len(r) - 1 \/ n \in {21, 22, 60, 63, 64, 65}}
Started == ph' \in {"connecting", "write", "read", "up"}
Obs == [started |-> Started, conn |-> ph' = "up", connecting |-> ph' = "connecting", reading |-> ph' \in {"read", "up"}, out |-> out', rec |-> rec']
R0 == [log |-> <<>>, ret |-> TRUE]
L(s) == [R0 EXCEPT !.log = s]
Emit(k, a, r) == IF EMIT THEN PrintT(ToJson([pre |-> St, op |-> [k |-> k, a |-> a, res |-> r @@ Obs], post |-> St'])) ELSE TRUE
Init == /\ ph = "new" /\ step = 0 /\ tgt = "none" /\ auth = FALSE /\ rec = TRUE /\ out = <<>> /\ got = <<>> /\ pend = 0
        /\ IF EMIT THEN PrintT(ToJson([init |-> St])) ELSE TRUE
NoLink == step' = 0 /\ out' = <<>> /\ got' = <<>>
Write(s) == ph' = "write" /\ step' = s /\ out' = Request(s, tgt, auth) /\ got' = <<>> /\ UNCHANGED pend
FrameOf(n) == FoldLeft(LAMBDA a, i : a \o <<0, 4, 7, 7>>, <<>>, [i \in 1 .. n |-> i])
Up == ph' = "up" /\ step' = 0 /\ out' = FrameOf(pend) /\ got' = <<>> /\ pend' = 0
\* a link which has been started is closed; one which is to be reconnected connects again
Down(r) == NoLink /\ rec' = r /\ ph' = (IF r THEN "connecting" ELSE "closed") /\ UNCHANGED pend
Start == "start" \in Ops /\ ph \in {"new", "closed"} /\ ph' = "connecting" /\ NoLink /\ UNCHANGED <<tgt, auth, rec, pend>> /\ Emit("start", <<>>, R0)
SetTarget == \E t \in Targets : /\ "target" \in Ops /\ ph \in {"new", "connecting", "up", "closed"} /\ t # tgt
                /\ LET ok == t # "long" /\ t # "empty" /\ (Ver = 4 => Kind(t) = 1) IN
                   tgt' = (IF ok THEN t ELSE "none") /\ UNCHANGED <<ph, step, auth, rec, out, got, pend>> /\ Emit("target", <<t>>, [R0 EXCEPT !.ret = ok])
SetAuth == "auth" \in Ops /\ ~auth /\ ph \in {"new", "connecting", "closed"} /\ auth' = TRUE /\ UNCHANGED <<ph, step, tgt, rec, out, got, pend>> /\ Emit("auth", <<>>, R0)
BadAuth == "auth" \in Ops /\ ph = "new" /\ UNCHANGED vars /\ Emit("badauth", <<>>, [R0 EXCEPT !.ret = FALSE])
SetRec == "setrec" \in Ops /\ ph \notin {"new", "closed"} /\ rec' = ~rec /\ UNCHANGED <<ph, step, tgt, auth, out, got, pend>> /\ Emit("setrec", <<rec'>>, R0)
Connected == /\ ph = "connecting" /\ UNCHANGED <<tgt, auth, rec>>
             /\ IF tgt = "none" THEN Up /\ Emit("connected", <<>>, L(<<"connect">>)) ELSE Write(IF Ver = 4 THEN 3 ELSE 1) /\ Emit("connected", <<>>, R0)
Refused == ph = "connecting" /\ Down(rec) /\ UNCHANGED <<tgt, auth>> /\ Emit("refused", <<>>, L(IF rec THEN <<>> ELSE <<"close">>))
Drain == \E n \in {1, Len(out)} :
         /\ out # <<>> /\ n <= Len(out) /\ UNCHANGED <<tgt, auth, rec, got, step>>
         /\ out' = SubSeq(out, n + 1, Len(out))
         /\ IF out' # <<>> THEN ph' = ph /\ UNCHANGED pend ELSE IF ph = "up" THEN ph' = ph /\ UNCHANGED pend ELSE ph' = "read" /\ UNCHANGED pend
         /\ (ph = "up" => n = Len(out))
         /\ Emit("drain", <<n>>, R0)
WriteFail == "break" \in Ops /\ ph = "write" /\ Down(FALSE) /\ UNCHANGED <<tgt, auth>> /\ Emit("werr", <<>>, L(<<"close">>))
Broken == /\ "break" \in Ops /\ ph \in {"read", "up"} /\ Down(rec /\ ph = "up") /\ UNCHANGED <<tgt, auth>>
          /\ \E how \in {"eof", "reset"} : Emit("broken", <<how>>, L(<<"close">>))
Deliver(g, said) ==
  LET v == Verdict(step, g) IN
  /\ UNCHANGED <<tgt, auth>>
  /\ CASE v = "more" -> got' = g /\ UNCHANGED <<ph, step, rec, out, pend>> /\ Emit("reply", SubSeq(g, Len(got) + 1, Len(g)), R0)
       [] v = "ok" -> Up /\ UNCHANGED rec /\ Emit("reply", SubSeq(g, Len(got) + 1, Len(g)) \o said, L(IF said = <<>> THEN <<"connect">> ELSE <<"connect", "msg">>))
       [] v = "bad" -> Down(FALSE) /\ Emit("reply", SubSeq(g, Len(got) + 1, Len(g)), L(<<"close">>))
       [] OTHER -> Write(IF v = "2" THEN 2 ELSE 3) /\ UNCHANGED rec /\ Emit("reply", SubSeq(g, Len(got) + 1, Len(g)), R0)
Prefix(a, r) == Len(a) < Len(r) /\ SubSeq(r, 1, Len(a)) = a
Hopeless(g) == \A r \in Replies(step) : (Prefix(g, r) \/ g = r) => Verdict(step, r) = "bad"
\* a piece of a reply; a piece with which the reply is beyond hope is judged when the rest has come (the client may give up earlier)
Reply == /\ ph = "read"
         /\ \E r \in Replies(step) : /\ Prefix(got, r)
              /\ IF Ver = 4 /\ Len(r) > 8 THEN Deliver(SubSeq(r, 1, 8), Msg)
                 ELSE \E n \in Cuts(r) : n > Len(got) /\
                      IF n < Len(r) /\ Hopeless(SubSeq(r, 1, n)) /\ Verdict(step, SubSeq(r, 1, n)) # "ok"
                      THEN Down(FALSE) /\ UNCHANGED <<tgt, auth>> /\ Emit("doomed", [a |-> SubSeq(r, Len(got) + 1, n), b |-> SubSeq(r, n + 1, Len(r))], L(<<"close">>))
                      ELSE (n < Len(r) => Verdict(step, SubSeq(r, 1, n)) = "more") /\ Deliver(SubSeq(r, 1, n), <<>>)
ForceDown == \E r \in BOOLEAN, how \in {"force", "graceful"} :
         /\ "force" \in Ops /\ ph \in {"connecting", "write", "read", "up"} /\ Down(r) /\ UNCHANGED <<tgt, auth>> /\ Emit(how, <<r>>, L(<<"close">>))
\* the application shuts the link down while the last bytes of the answer are on their way to the handler, or gracefully before they come
Late == \E r \in BOOLEAN, how \in {"force", "graceful"}, before \in BOOLEAN :
         /\ "late" \in Ops /\ ph = "read" /\ (before \/ pend = 0) /\ Down(r) /\ UNCHANGED <<tgt, auth>>
         /\ \E a \in Replies(step) : Prefix(got, a) /\ Verdict(step, a) \notin {"more", "bad"} /\ (Ver = 4 => Len(a) = 8) /\ Emit("late", [a |-> SubSeq(a, Len(got) + 1, Len(a)), r |-> r, how |-> how, before |-> before], L(IF before THEN <<"close">> ELSE <<"maybe connect", "close">>))
Send == "send" \in Ops /\ ph # "up" /\ pend' = pend + 1 /\ pend < N /\ UNCHANGED <<ph, step, tgt, auth, rec, out, got>> /\ Emit("send", <<>>, R0)
Said == ph = "up" /\ UNCHANGED vars /\ Emit("msg", Msg, L(<<"msg">>))
Next == Start \/ SetTarget \/ SetAuth \/ BadAuth \/ SetRec \/ Connected \/ Refused \/ Drain \/ WriteFail \/ Broken \/ Reply \/ ForceDown \/ Late \/ Send \/ Said
Spec == Init /\ [][Next]_vars
\* connected only after the whole request was sent and accepted; nothing of the application leaves before
NoEarly == /\ (ph \in {"write", "read"} => step \in 1 .. 3 /\ tgt # "none") /\ (ph = "up" => got = <<>>)
           /\ (ph = "write" => \E n \in 0 .. Len(Request(step, tgt, auth)) : out = SubSeq(Request(step, tgt, auth), n + 1, Len(Request(step, tgt, auth))))
           /\ (ph = "read" => out = <<>> /\ Verdict(step, got) = "more")
=============================================================================
