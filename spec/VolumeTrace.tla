---------------------------- MODULE VolumeTrace ----------------------------
EXTENDS Volume, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, used, ids, bad   \* indices and identifiers of the volumes of the current history
vars == <<l, used, ids, bad>>
Init == l = 1 /\ used = {} /\ ids = {} /\ bad = <<>>
Own(e) == e.ev = "volume" /\ e.o.res = "ok" /\ Len(e.o.image) > 0
Why(e) == IF e.ev = "end" THEN "process ended: " \o e.why
          ELSE IF e.o.res = "ok" /\ e.o.index \in used THEN "two volumes with one index"
          ELSE LET w == WhyVolume(e.p, e.o)
               IN  IF w = "" /\ Own(e) /\ Identifier(e.o.image) \in ids THEN "two volumes with one identifier" ELSE w
Call == /\ l <= Len(Trace)
        /\ LET e == Trace[l] w == IF e.ev = "open" THEN "" ELSE Why(e)
           IN  /\ bad' = IF w = "" THEN bad ELSE Append(bad, [i |-> l, why |-> w])
               /\ used' = IF e.ev = "open" THEN {} ELSE IF e.ev = "volume" /\ e.o.res = "ok" THEN used \cup {e.o.index} ELSE used
               /\ ids' = IF e.ev = "open" THEN {} ELSE IF w = "" /\ Own(e) THEN ids \cup {Identifier(e.o.image)} ELSE ids
        /\ l' = l + 1
Done == /\ l = Len(Trace) + 1
        /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, n |-> Len(Trace)])
        /\ l' = l + 1 /\ UNCHANGED <<used, ids, bad>>
Next == Call \/ Done
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
=============================================================================
