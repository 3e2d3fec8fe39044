--------------------------- MODULE GeometryTrace ---------------------------
EXTENDS Geometry, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
Call == /\ l <= Len(Trace)
        /\ LET w == WhyCall(Trace[l]) IN bad' = IF w = "" THEN bad ELSE Append(bad, [i |-> l, why |-> w])
        /\ l' = l + 1
Done == /\ l = Len(Trace) + 1
        /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, n |-> Len(Trace)])
        /\ l' = l + 1 /\ UNCHANGED bad
Next == Call \/ Done
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
=============================================================================
