------------------------------ MODULE RowTrace ------------------------------
(* Validates recorded encodings.  Each event is one row: its type and value, *)
(* what the encoder announced, returned and wrote (into a buffer of exactly  *)
(* the announced size, and into a larger one with other previous contents),  *)
(* what was read back, and what undersized buffers led to.                   *)
EXTENDS Row, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES l, bad
vars == <<l, bad>>

WhyLossless(e) ==
  IF e.ret < 0 \/ e.ret2 < 0 THEN "encoding failed"
  ELSE IF e.read # e.v THEN "value read back differs"
  ELSE IF e.read2 # e.v THEN "value read back from a larger buffer differs"
  ELSE IF e.read3 # e.v THEN "value of a re-encoded row differs"
  ELSE ""

WhyBounds(e) ==
  IF e.size < 0 THEN "size computation failed"
  ELSE IF e.ret < 0 THEN "a buffer of the announced size was refused"
  ELSE IF e.ret # e.size \/ e.ret2 # e.size THEN "announced and reported size differ"
  ELSE IF ~e.guard \/ ~e.guard2 THEN "wrote outside the buffer"
  ELSE IF ~e.tail THEN "wrote beyond the announced size"
  ELSE IF \E i \in 1..Len(e.small) : e.small[i].ok THEN "a buffer that is too small was accepted"
  ELSE IF \E i \in 1..Len(e.small) : ~e.small[i].guard THEN "wrote outside a buffer that is too small"
  ELSE ""

WhyFormat(e) ==
  IF e.ret < 0 THEN "encoding failed"
  ELSE LET cells == Encode(e.t, e.v)
       IN  IF Len(e.bytes) # Len(cells) THEN "row size"
           ELSE IF ~Matches(cells, e.bytes) THEN "row bytes"
           ELSE IF ~Matches(cells, e.bytes2) THEN "row bytes depend on the buffer"
           ELSE IF ~Matches(cells, e.bytes3) THEN "row bytes depend on the source"
           ELSE ""

Why(e) == IF e.abort # "" THEN "process ended: " \o e.abort
          ELSE CASE Prop = "C03" -> WhyLossless(e)
                 [] Prop = "C04" -> WhyBounds(e)
                 [] Prop = "C05" -> WhyFormat(e)

Init == l = 1 /\ bad = <<>>
Step == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l])
           IN  bad' = IF w = "" THEN bad ELSE Append(bad, [i |-> l, why |-> w])
        /\ l' = l + 1
Done == /\ l = Len(Trace) + 1
        /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, n |-> Len(Trace)])
        /\ l' = l + 1 /\ UNCHANGED bad
Spec == Init /\ [][Step \/ Done]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
=============================================================================
