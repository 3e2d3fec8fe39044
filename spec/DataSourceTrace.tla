--------------------------- MODULE DataSourceTrace --------------------------
(* Validates recorded histories of containers.                               *)
EXTENDS DataSource, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, bad
vars == <<l, m, bad>>

Why(e) ==
  CASE e.op = "get" ->
         LET x == Ask(m, e.p, e.kind)
         IN  IF e.res.ok /\ ~x.ok THEN "an entry that was not stored was answered"
             ELSE IF ~e.res.ok /\ x.ok THEN "a stored entry was refused"
             ELSE IF e.res # x THEN "another value was answered" ELSE ""
    [] e.op \in {"set", "clear"} -> IF ~e.res.ok THEN "storing panicked" ELSE ""
    [] e.op = "abort" -> "process ended: " \o e.why
    [] OTHER -> ""

Init == l = 1 /\ m = Nothing /\ bad = <<>>
Call == /\ l <= Len(Trace)
        /\ LET e == Trace[l] w == Why(e)
           IN  /\ bad' = IF w = "" THEN bad ELSE Append(bad, [i |-> l, why |-> w])
               /\ m' = CASE e.op = "set" -> Put(m, e.p, e.e)
                         [] e.op \in {"clear", "open"} -> Nothing
                         [] OTHER -> m
        /\ l' = l + 1
Done == /\ l = Len(Trace) + 1
        /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, n |-> Len(Trace)])
        /\ l' = l + 1 /\ UNCHANGED <<m, bad>>
Next == Call \/ Done
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
=============================================================================
