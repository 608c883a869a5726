------------------------------ MODULE Packers ------------------------------
(* The wire format of every packer. A call packs body parts of given lengths (-1: a length no buffer can have,
   -2: an absent part) in one of the call forms:
     "parts"  the part array,  "buf"/"str" one pointer+length / one string,
     "can1"/"can2"/"cans"  the container forms: the parts are messages which are moved behind a separate head message,
     "can1c"/"can2c"  the same with messages which must stay untouched,  "hb" the heartbeat.
   The result is refused (no output) or  head + body + tail, total bytes in all; a head carries its own total. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kind,    \* "head", "ps" or "fixed"
          Limit,   \* configured maximum of a message on the wire
          HeadLen, PreLen, SufLen,
          Range,   \* biggest value a head can carry
          Lens, MaxParts, EMIT
VARIABLES last     \* was there output in the previous call (the output message is reused)

Pre == CASE Kind = "head" -> HeadLen [] Kind = "ps" -> PreLen [] OTHER -> 0
Suf == IF Kind = "ps" THEN SufLen ELSE 0
Over(native) == IF native THEN 0 ELSE Pre + Suf
Max(native) == IF Kind = "head" /\ ~native /\ Range < Limit THEN Range ELSE Limit

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE (IF Head(s) = -2 THEN 0 ELSE Head(s)) + Sum(Tail(s))
Huge(s) == \E i \in DOMAIN s : s[i] = -1

\* whether an empty body produces anything: the array forms produce nothing at all, the container forms an overhead-only message
Container(form) == form \in {"can1", "can1c", "can2", "can2c", "cans"}

Result(form, lens, native) ==
  IF form = "hb" THEN IF Kind = "fixed" THEN [ok |-> FALSE, total |-> 0, body |-> 0] ELSE [ok |-> TRUE, total |-> Over(FALSE), body |-> 0]
  ELSE LET body == Sum(lens) total == body + Over(native) IN
    IF Huge(lens) \/ total > Max(native) THEN [ok |-> FALSE, total |-> 0, body |-> 0]
    ELSE IF body = 0 /\ ~Container(form) THEN [ok |-> TRUE, total |-> 0, body |-> 0]
    ELSE [ok |-> TRUE, total |-> total, body |-> body]

Call(form, lens, native) ==
  LET r == Result(form, lens, native) IN
  /\ last' = IF ~Container(form) THEN r.ok /\ r.total > 0 ELSE last
  /\ EMIT => PrintT(ToJson([pre |-> [last |-> last], post |-> [last |-> last'], op |-> [form |-> form, lens |-> lens, native |-> native, res |-> r]]))

Init == last = FALSE /\ (EMIT => PrintT(ToJson([init |-> [last |-> last]])))
Real == {l \in Lens : l >= 0}
Next == \/ \E n \in 0..MaxParts : \E lens \in [1..n -> Lens], native \in BOOLEAN : Call("parts", lens, native)
        \/ \E l \in Lens \ {-2}, native \in BOOLEAN : Call("buf", <<l>>, native)
        \/ \E l \in Real, native \in BOOLEAN : Call("str", <<l>>, native)
        \/ \E l \in Real, f \in {"can1", "can1c"} : Call(f, <<l>>, FALSE)
        \/ \E lens \in [1..2 -> Real], f \in {"can2", "can2c"} : Call(f, lens, FALSE)
        \/ \E n \in 0..MaxParts : \E lens \in [1..n -> Real] : Call("cans", lens, FALSE)
        \/ Call("hb", <<>>, FALSE)
Spec == Init /\ [][Next]_last

\* the design: what is accepted fits both the limit and the head, all forms agree on every body that is not empty
Fits == \A n \in 0..MaxParts : \A lens \in [1..n -> Real] : LET r == Result("parts", lens, FALSE) IN r.ok => r.total <= Limit /\ (Kind = "head" => r.total <= Range)
FormsAgree == \A lens \in [1..2 -> Real] : Sum(lens) > 0 =>
   Result("parts", lens, FALSE) = Result("can2", lens, FALSE) /\ Result("cans", lens, FALSE) = Result("can1", <<Sum(lens)>>, FALSE) /\ Result("can2c", lens, FALSE) = Result("buf", <<Sum(lens)>>, FALSE)
=============================================================================
