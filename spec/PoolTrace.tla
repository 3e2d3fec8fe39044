------------------------------ MODULE PoolTrace ------------------------------
(* Validates recorded histories of the buffer pool's clients.                 *)
EXTENDS Pool, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES l, s, n, rel, bad
vars == <<l, s, n, rel, bad>>

WhyGot17(e, r) == IF Conflict(s, r) THEN "access granted while an incompatible access is held"
                  ELSE IF e.off # 0 THEN "a buffer overlaps its neighbour"
                  ELSE IF Aliased(s, r, e.buf) THEN "two locations in one buffer, or one location in two buffers" ELSE ""
WhyGot18(e, r) == IF e.val \notin Shows(s, r) THEN "access shows something else than the content of the location" ELSE ""
WhyQuiet == IF rel # {} THEN "a release does not finish"
            ELSE IF \E i \in 1..Len(s.asked) : ~MayWait(s, s.asked[i], n) THEN "a request waits that could be served" ELSE ""
Why(e) ==
  CASE e.ev = "got" -> (CASE Prop = "C17" -> WhyGot17(e, Request(s, e.c)) [] Prop = "C18" -> WhyGot18(e, Request(s, e.c)) [] OTHER -> "")
    [] e.ev = "rel" -> IF Prop # "C19" /\ e.val # Content(s, Holding(s, e.c).loc) THEN "the content changed under an access" ELSE ""
    [] e.ev = "quiet" -> IF Prop = "C19" THEN WhyQuiet ELSE ""
    \* whoever panics does not get the content either
    [] e.ev = "panic" -> IF Prop # "C17" THEN "the pool panicked" ELSE ""
    [] e.ev = "abort" -> IF Prop = "C19" \/ e.why # "hang" THEN "process ended: " \o e.why ELSE ""
    [] e.ev = "odd" -> IF Prop # "C19" THEN "a buffer of another size, or another location" ELSE ""
    [] OTHER -> ""

After(e) ==
  CASE e.ev = "open" -> Start
    [] e.ev = "ask" -> Ask(s, e.c, e.op, e.loc)
    [] e.ev = "got" -> Grant(s, e.c, e.buf, e.val)
    [] e.ev = "withdraw" -> Withdrawn(s, e.c)
    [] e.ev = "put" -> Put(s, e.c, e.val)
    [] e.ev = "rel" -> Release(s, e.c)
    [] OTHER -> s

Init == l = 1 /\ s = Start /\ n = 0 /\ rel = {} /\ bad = <<>>
Call == /\ l <= Len(Trace)
        /\ LET e == Trace[l] w == Why(e)
           IN  /\ bad' = IF w = "" THEN bad ELSE Append(bad, [i |-> l, why |-> w])
               /\ s' = After(e)
               /\ n' = IF e.ev = "open" THEN e.n ELSE n
               /\ rel' = CASE e.ev = "open" -> {} [] e.ev = "rel" -> rel \cup {e.c} [] e.ev = "done" -> rel \ {e.c} [] OTHER -> rel
        /\ l' = l + 1
Done == /\ l = Len(Trace) + 1
        /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, n |-> Len(Trace)])
        /\ l' = l + 1 /\ UNCHANGED <<s, n, rel, bad>>
Next == Call \/ Done
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
=============================================================================
