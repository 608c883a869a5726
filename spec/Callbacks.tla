------------------------------- MODULE Callbacks -------------------------------
(* The wrappers in ext::callbacks: functions registered on a socket, server or object pool instead of overridden virtual functions.
   A hook is [n |-> name, k |-> kind, d |-> passed on by default]; kinds:
     "void"    no result,
     "combine" true or false: the built-in function runs only after a registered one which answered true, both must agree,
     "value"   a number: the built-in function's one counts if it runs.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Hooks, Objs, AtOnce, EMIT
VARIABLES reg   \* [Objs -> [names -> {"none", "pass", "replace"}]]
Names == {h.n : h \in Hooks}
Regs == {<<o, n>> \in Objs \X Names : reg[o][n] /= "none"}
Init == /\ reg = [o \in Objs |-> [n \in Names |-> "none"]]
        /\ IF EMIT THEN PrintT(ToJson([init |-> [reg |-> reg]])) ELSE TRUE
Results(k) == CASE k = "void" -> {0} [] k = "combine" -> {0, 1} [] OTHER -> {0, 3, 8}

Builtin(h, o, u) == \* does the built-in function run?
    /\ reg[o][h.n] /= "replace"
    /\ (h.k = "combine" /\ reg[o][h.n] /= "none") => u = 1
Calls(h, o, u) == (IF reg[o][h.n] = "none" THEN <<>> ELSE <<"user">>) \o (IF Builtin(h, o, u) THEN <<"builtin">> ELSE <<>>)
Result(h, o, u, b) == CASE h.k = "void" -> 0
                       [] OTHER -> IF Builtin(h, o, u) THEN b ELSE u

Held == \* what is promised, said without the definitions above
    \A o \in Objs : \A h \in Hooks : \A u \in Results(h.k) : \A b \in Results(h.k) :
        LET c == Calls(h, o, u) r == Result(h, o, u, b) m == reg[o][h.n] IN
        /\ (m = "none") => (c = <<"builtin">> /\ r = (IF h.k = "void" THEN 0 ELSE b))
        /\ (m = "replace") => (c = <<"user">> /\ r = (IF h.k = "void" THEN 0 ELSE u))
        /\ (m = "pass") => (Len(c) >= 1 /\ c[1] = "user" /\ (Len(c) = 1 => (h.k = "combine" /\ u = 0)))
        /\ (m = "pass" /\ h.k = "combine") => (r = (IF u = 1 /\ b = 1 THEN 1 ELSE 0))

Emit(k, a, res) == EMIT => PrintT(ToJson([pre |-> [reg |-> reg], op |-> [k |-> k, a |-> a, res |-> res], post |-> [reg |-> reg']]))
Register(o, h, how, pass) ==
    /\ reg[o][h.n] /= "none" \/ Cardinality(Regs) < AtOnce
    /\ reg' = [reg EXCEPT ![o][h.n] = IF pass = "T" \/ (pass = "D" /\ h.d) THEN "pass" ELSE "replace"]
    /\ Emit("reg", <<o, h.n, how, pass>>, [x |-> 0])
Raise(o, h, u, b) ==
    /\ UNCHANGED reg
    /\ Emit("raise", <<o, h.n, u, b>>, [calls |-> Calls(h, o, u), r |-> Result(h, o, u, b)])
Next == \E o \in Objs : \E h \in Hooks :
        \/ \E how \in {"functor", "function"} : \E pass \in {"T", "F", "D"} : Register(o, h, how, pass)
        \/ \E u \in Results(h.k) : \E b \in Results(h.k) : Raise(o, h, u, b)
Spec == Init /\ [][Next]_reg
================================================================================
