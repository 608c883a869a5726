------------------------------ MODULE Framing ------------------------------
(* What a stream unpacker must deliver. A stream is a sequence of frames; the peer's bytes arrive in
   segments which may end anywhere. A frame kind is
     [n |-> total bytes on the wire, body |-> delivered bytes (0: heartbeat, not delivered),
      bad |-> 0 for a valid frame, else the number of its bytes after which it must be reported].
   One step feeds one segment: the rest of the frame in progress, any number of whole frames, and the
   first bytes of a last one. Everything whose last byte has arrived is delivered in that very step,
   in order; a bad frame is reported as soon as the bytes which make it bad have arrived, nothing of
   it is delivered, and the stream starts afresh (the parser is reset, the peer sends a new stream). *)
EXTENDS Naturals, Sequences, TLC, Json, SequencesExt
CONSTANTS Kinds,      \* the frame kinds, a sequence
          Cuts,       \* offsets inside a frame at which a segment may end
          MaxNew,     \* frames started within one segment
          EMIT
VARIABLES cur,        \* index of the frame in progress, 0 = at a frame boundary
          off         \* bytes of it which have arrived
vars == <<cur, off>>
St == [cur |-> cur, off |-> off]

Valid == {k \in DOMAIN Kinds : Kinds[k].bad = 0}
Bad == {k \in DOMAIN Kinds : Kinds[k].bad > 0}
\* segments: news = frames started in this segment; all but the last arrive completely, of the last `stop` bytes in all
Delivered(fs) == LET d == SelectSeq(fs, LAMBDA k : Kinds[k].body > 0) IN [i \in DOMAIN d |-> Kinds[d[i]].body]

\* the frames this segment touches, in order (the one in progress first)
Touched(news) == (IF cur = 0 THEN <<>> ELSE <<cur>>) \o news
CutsOf(k) == {c \in Cuts : c <= Kinds[k].n} \cup {Kinds[k].n}
ValidSeqs(n) == UNION {[1..j -> Valid] : j \in 0..n}

Feed(news, stop) ==
  LET t == Touched(news)
      last == t[Len(t)]
      whole == IF stop = Kinds[last].n THEN t ELSE SubSeq(t, 1, Len(t) - 1)
      isbad == Kinds[last].bad > 0 /\ stop >= Kinds[last].bad
      good == IF Kinds[last].bad > 0 THEN SubSeq(t, 1, Len(t) - 1) ELSE whole
      out == Delivered(good)
  IN /\ cur' = IF isbad \/ stop = Kinds[last].n THEN 0 ELSE last
     /\ off' = IF isbad \/ stop = Kinds[last].n THEN 0 ELSE stop
     /\ EMIT => PrintT(ToJson([pre |-> St, op |-> [cur |-> cur, off |-> off, news |-> news, stop |-> stop, res |-> [msgs |-> out, err |-> isbad]],
                               post |-> [cur |-> cur', off |-> off']]))

Init == cur = 0 /\ off = 0 /\ (EMIT => PrintT(ToJson([init |-> St])))
\* the frame in progress is continued but not finished, or finished and further frames follow; only the last frame may be bad
Next ==
  \/ /\ cur # 0
     /\ \E stop \in CutsOf(cur) : stop > off /\ Feed(<<>>, stop)
  \/ /\ cur = 0 \/ cur \in Valid
     /\ \E vs \in ValidSeqs(MaxNew - 1), k \in DOMAIN Kinds :
          \E stop \in {c \in CutsOf(k) : c > 0} : Feed(Append(vs, k), stop)
Spec == Init /\ [][Next]_vars
TypeOK == cur \in 0..Len(Kinds) /\ (cur = 0 <=> off = 0) /\ (cur # 0 => off < Kinds[cur].n)
\* a frame known to be bad never stays in progress
BadIsReported == cur \in Bad => off < Kinds[cur].bad
=============================================================================
