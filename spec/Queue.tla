------------------------------- MODULE Queue -------------------------------
(* The message queue of the library (queue<Container, Lockable> in container.h) as a sequence of
   items <<identity, size>>. Every operation is a function from the state to the next state and
   the result the caller sees, so the same definition is used
     - to enumerate all behaviours within bounds (Spec; every transition is printed when EMIT is TRUE
       and is then replayed in the implementation), and
     - to decide whether a recorded history of the implementation is allowed (TraceQueue). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxItems, Sizes, EMIT
VARIABLE q

Item == [id : Nat, n : Nat]
Sum(s) == FoldSeq(LAMBDA x, acc : x.n + acc, 0, s)
Ids(s) == [i \in DOMAIN s |-> s[i].id]

\* number of items a removal bounded by bytes takes: the shortest prefix reaching the bytes, everything if less is queued
PrefixLen(s, b) ==
  LET reach == {k \in 1..Len(s) : Sum(SubSeq(s, 1, k)) >= b}
  IN IF reach = {} THEN Len(s) ELSE CHOOSE k \in reach : \A j \in reach : k <= j
Lesser(a, b) == IF a < b THEN a ELSE b
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Take(s, k) == SubSeq(s, 1, k)

Obs(s) == [bytes |-> Sum(s), num |-> Len(s), empty |-> (s = <<>>)]
\* the result of an operation: what it returned plus the observers afterwards
Res(s, out) == [out |-> out, obs |-> Obs(s)]
Mk(s, out) == [st |-> s, res |-> Res(s, out)]
TakeOut(s, k) == [st |-> Drop(s, k), res |-> Res(Drop(s, k), Ids(Take(s, k)))]

\* op.items are the items brought along by the operation
Apply(s, op) ==
  CASE op.k \in {"enq", "enqc"}   -> Mk(s \o op.items, <<>>)
    [] op.k \in {"front", "frontc"} -> Mk(op.items \o s, <<>>)
    [] op.k \in {"in", "in0"}     -> Mk(s \o op.items, <<>>)
    [] op.k \in {"infront", "infront0"} -> Mk(op.items \o s, <<>>)
    [] op.k = "swap"              -> Mk(op.items, Ids(s))
    [] op.k = "clear"             -> Mk(<<>>, <<>>)
    [] op.k = "deq"               -> TakeOut(s, Lesser(1, Len(s)))
    [] op.k = "outall"            -> TakeOut(s, Len(s))
    [] op.k = "outn"              -> TakeOut(s, Lesser(op.a, Len(s)))
    [] op.k = "outb"              -> TakeOut(s, PrefixLen(s, op.a))
    [] op.k = "each"              -> Mk(s, Ids(s))
    [] op.k = "until"             -> Mk(s, Ids(Take(s, Lesser(op.a, Len(s)))))
-----------------------------------------------------------------------------
Used(s) == {s[i].id : i \in DOMAIN s}
Fresh(s, k) == \* the k smallest unused identities
  LET free == {i \in 0..(MaxItems + k) : i \notin Used(s)} IN Take(SetToSortSeq(free, LAMBDA a, b : a < b), k)
Lists(k) == UNION {[1..j -> Sizes] : j \in 0..k}
Items(s, sizes) == LET f == Fresh(s, Len(sizes)) IN [i \in DOMAIN sizes |-> [id |-> f[i], n |-> sizes[i]]]
Room(s) == MaxItems - Len(s)
MaxBytes == Sum([i \in 1..MaxItems |-> [id |-> 0, n |-> CHOOSE m \in Sizes : \A x \in Sizes : x <= m]])

Ops(s) ==
  {[k |-> kk, items |-> Items(s, <<z>>), a |-> 0] : kk \in {"enq", "enqc", "front", "frontc"}, z \in IF Room(s) > 0 THEN Sizes ELSE {}}
  \cup {[k |-> kk, items |-> Items(s, l), a |-> 0] : kk \in {"in", "in0", "infront", "infront0"}, l \in Lists(Lesser(2, Room(s)))}
  \cup {[k |-> "swap", items |-> Items(s, l), a |-> 0] : l \in Lists(2)}
  \cup {[k |-> kk, items |-> <<>>, a |-> 0] : kk \in {"clear", "deq", "outall", "each"}}
  \cup {[k |-> kk, items |-> <<>>, a |-> n] : kk \in {"outn"}, n \in 0..(MaxItems + 1)}
  \cup {[k |-> kk, items |-> <<>>, a |-> n] : kk \in {"until"}, n \in 1..MaxItems}
  \cup {[k |-> kk, items |-> <<>>, a |-> n] : kk \in {"outb"}, n \in 0..(MaxBytes + 1)}

Emit(op, r) == EMIT => PrintT(ToJson([pre |-> q, op |-> [k |-> op.k, items |-> op.items, a |-> op.a, res |-> r.res], post |-> r.st]))
Init == q = <<>> /\ (EMIT => PrintT(ToJson([init |-> q])))
Next == \E op \in Ops(q) : LET r == Apply(q, op) IN q' = r.st /\ Emit(op, r)
Spec == Init /\ [][Next]_q

NoDuplicates == Cardinality(Used(q)) = Len(q)
\* what is removed is a prefix of what was queued, what stays is the rest (nothing lost, reordered or duplicated)
Removal == [][\A op \in {[k |-> kk, items |-> <<>>, a |-> n] : kk \in {"deq", "outall", "outn", "outb"}, n \in 0..(MaxBytes + 1)} :
               LET r == Apply(q, op) IN /\ r.res.out \o Ids(r.st) = Ids(q)
                                        /\ op.k = "outb" /\ Len(r.st) > 0 => Sum(Take(q, Len(r.res.out))) >= op.a
                                        /\ op.k = "outn" => Len(r.res.out) <= op.a]_q
=============================================================================
