------------------------------- MODULE Buffer -------------------------------
(* basic_buffer as a byte string. Two buffers a and b, so that copies, swaps and self references are covered.
   Bytes are small naturals, 0 is the NUL character, "any" (99) a byte exposed by growing (unspecified).
   An operation either throws and changes nothing, or yields the result of the string operation. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen, Chars, EMIT
VARIABLES a, b
vars == <<a, b>>
St == [a |-> a, b |-> b]
Unk == 99
Huge == 1000000   \* stands for a length no buffer can have

Sub(s, pos, n) == SubSeq(s, pos + 1, IF pos + n > Len(s) THEN Len(s) ELSE pos + n)
Rep(n, ch) == [i \in 1..n |-> ch]
Resize(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Rep(n - Len(s), Unk)
Erase(s, pos, n) == SubSeq(s, 1, pos) \o (IF pos + n >= Len(s) THEN <<>> ELSE SubSeq(s, pos + n + 1, Len(s)))
UpToNul(s) == IF \E i \in DOMAIN s : s[i] = 0 THEN SubSeq(s, 1, (CHOOSE i \in DOMAIN s : s[i] = 0 /\ \A j \in 1..(i-1) : s[j] # 0) - 1) ELSE s
DropNul(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
T(x) == [v |-> x, throws |-> FALSE]
Throw == [v |-> a, throws |-> TRUE]

\* result of an operation on a: op = [k, src, pos, n, ch]; src is the argument bytes ("" when not used)
R(op) ==
  CASE op.k = "appendc" -> T(a \o Rep(op.n, op.ch))
    [] op.k = "appendx" -> IF op.n >= Huge THEN Throw ELSE T(a \o Rep(op.n, op.ch))
    [] op.k = "append" -> T(a \o op.src)
    [] op.k = "appendstr" -> T(a \o UpToNul(op.src))
    [] op.k = "appendhuge" -> Throw                                            \* a length beyond max_size()
    [] op.k = "append2" -> T(DropNul(a) \o op.src)
    [] op.k = "append2str" -> T(DropNul(a) \o UpToNul(op.src) \o <<0>>)
    [] op.k = "append2huge" -> Throw
    [] op.k = "appendb" -> T(a \o b)
    [] op.k = "appendself" -> T(a \o a)
    [] op.k = "appendsub" -> T(a \o Sub(a, op.pos, op.n))                       \* a piece of itself
    [] op.k = "assignsub" -> T(Sub(a, op.pos, op.n))
    [] op.k = "assign" -> T(op.src)
    [] op.k = "assignhuge" -> Throw
    [] op.k = "assigncopy" -> T(b)
    [] op.k = "assignself" -> T(a)
    [] op.k = "assignch" -> T(<<op.ch>>)
    [] op.k = "assignlen" -> T(Resize(a, op.n))
    [] op.k = "copyctor" -> T(b)
    [] op.k = "ctorfrom" -> T(IF op.pos < Len(b) THEN Sub(b, op.pos, Len(b)) ELSE <<>>)
    [] op.k = "ctorsub" -> T(IF op.pos < Len(b) THEN Sub(b, op.pos, op.n) ELSE <<>>)
    [] op.k = "ctorlen" -> T(Rep(op.n, Unk))
    [] op.k = "ctorrep" -> T(Rep(op.n, op.ch))
    [] op.k = "ctorbuf" -> T(op.src)
    [] op.k = "ctorstr" -> T(UpToNul(op.src))
    [] op.k = "erase" -> IF op.pos > Len(a) THEN Throw ELSE T(Erase(a, op.pos, op.n))
    [] op.k = "erasefrom" -> IF op.pos > Len(a) THEN Throw ELSE T(SubSeq(a, 1, op.pos))
    [] op.k = "eraseall" -> T(<<>>)
    [] op.k = "resize" -> IF op.n >= Huge THEN Throw ELSE T(Resize(a, op.n))
    [] op.k = "reserve" -> IF op.n >= Huge THEN Throw ELSE T(a)
    [] op.k = "shrink" -> T(a)
    [] op.k = "clear" -> T(<<>>)
    [] op.k = "clean" -> T(<<>>)
    [] op.k = "swap" -> T(b)

Op(k, src, pos, n, ch) == [k |-> k, src |-> src, pos |-> pos, n |-> n, ch |-> ch]
Do(op) == LET r == R(op) IN
  /\ a' = r.v
  /\ b' = IF op.k = "swap" THEN a ELSE b
  /\ EMIT => PrintT(ToJson([pre |-> St, op |-> [k |-> op.k, src |-> op.src, pos |-> op.pos, n |-> op.n, ch |-> op.ch, throws |-> r.throws], post |-> [a |-> a', b |-> b']]))

Srcs == UNION {[1..n -> Chars] : n \in 0..2}
Ops == {Op(k, s, 0, 0, 0) : k \in {"append", "appendstr", "append2", "append2str", "assign", "ctorbuf", "ctorstr"}, s \in Srcs}
  \cup {Op(k, <<>>, 0, 0, 0) : k \in {"appendhuge", "append2huge", "assignhuge", "appendb", "appendself", "assigncopy", "assignself", "copyctor", "eraseall", "shrink", "clear", "clean", "swap"}}
  \cup {Op(k, <<>>, p, n, 0) : k \in {"appendsub", "assignsub", "ctorsub", "erase"}, p \in 0..(MaxLen + 1), n \in {0, 1, 2, MaxLen + 1}}
  \cup {Op(k, <<>>, p, 0, 0) : k \in {"ctorfrom", "erasefrom"}, p \in 0..(MaxLen + 1)}
  \cup {Op(k, <<>>, 0, n, 0) : k \in {"assignlen", "ctorlen"}, n \in 0..MaxLen}
  \cup {Op(k, <<>>, 0, n, 0) : k \in {"resize", "reserve"}, n \in (0..MaxLen) \cup {20, Huge} }
  \cup {Op(k, <<>>, 0, n, c) : k \in {"appendc", "ctorrep"}, n \in 0..2, c \in Chars}
  \cup {Op("appendx", <<>>, 0, Huge, 1), Op("assignch", <<>>, 0, 0, 1)}
\* a piece of itself must lie within it
Legal(op) == /\ op.k \in {"appendsub", "assignsub"} => op.pos <= Len(a) /\ op.pos + op.n <= Len(a)
             /\ op.k \in {"append2", "append2str"} /\ a # <<>> => a[Len(a)] # Unk   \* whether it is a NUL is unknown
Init == a = <<>> /\ b = <<>> /\ (EMIT => PrintT(ToJson([init |-> St])))
Next == \E op \in Ops : Legal(op) /\ Len(R(op).v) <= MaxLen /\ Do(op)
Spec == Init /\ [][Next]_vars
=============================================================================
