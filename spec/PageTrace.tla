----------------------------- MODULE PageTrace ------------------------------
(* Trace specification: every recorded call on a real page must be the      *)
(* transition of Page from the state the specification is in.  The file     *)
(* holds many histories; each starts with an "open" event.  A rejected      *)
(* event is recorded in `bad' and the rest of its history is skipped.       *)
EXTENDS Page, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES l, rows, size, al, skip, bad
vars == <<l, rows, size, al, skip, bad>>

Init == l = 1 /\ rows = <<>> /\ size = 0 /\ al = 1 /\ skip = FALSE /\ bad = <<>>

\* What the real page showed after the call must be what the specification shows.
\* C01: the rows.  C02: acceptance, advertised size, unchanged on refusal, guards intact.
\* C01 follows the code's decision to accept or refuse (that decision is C02's business).
ListAfter(e) ==
  IF e.res # "ok" THEN rows
  ELSE CASE e.op = "init"   -> <<>>
         [] e.op = "append" -> Append(rows, e.row)
         [] e.op = "many"   -> rows \o e.rows
         [] e.op = "insert" -> InsertIdx(rows, e.i + 1, e.row)
         [] e.op = "remove" -> RemoveIdx(rows, e.i + 1)
         [] e.op = "get"    -> rows

InRange(e) == CASE e.op = "insert" -> e.i <= Len(rows)
                [] e.op \in {"remove", "get"} -> e.i < Len(rows)
                [] OTHER -> TRUE

WhyList(e) ==
  IF e.res = "abort" THEN "process aborted"
  ELSE IF e.res = "ok" /\ ~InRange(e) THEN "an index out of range was accepted"
  ELSE IF e.res # "ok" /\ e.op \in {"init", "remove", "get"} /\ InRange(e) THEN "a valid operation was refused"
  ELSE IF e.op = "many" /\ e.res # "ok" THEN ""       \* what is there then is not followed
  ELSE LET new == ListAfter(e)
       IN  IF e.n # Len(new) THEN "row count"
           ELSE IF e.shown # SeqMap(LAMBDA r : r.id, new) THEN "row contents"
           ELSE IF e.op = "get" /\ e.res = "ok" /\ e.got # rows[e.i + 1].id THEN "get_row"
           ELSE ""

WhyCapacity(e) ==
  LET acc == Accepted(rows, size, al, e)
      new == After(rows, size, al, e)
  IN  IF e.res = "abort" THEN "process aborted"
      ELSE IF (e.res = "ok") # acc THEN IF acc THEN "a row that fits was refused" ELSE "accepted what does not fit"
      ELSE IF ~e.guard THEN "wrote outside the page"
      ELSE IF e.res # "ok" /\ ~e.same THEN "a refused operation changed the page"
      ELSE IF e.max # MaxInsert(new, size, al) THEN "advertised size"
      ELSE ""

Why(e) == IF Prop = "C01" THEN WhyList(e) ELSE WhyCapacity(e)

Open ==
  /\ l <= Len(Trace) /\ Trace[l].op = "open"
  /\ size' = Trace[l].size /\ al' = Trace[l].al /\ rows' = <<>> /\ skip' = FALSE
  /\ l' = l + 1 /\ UNCHANGED bad

Call ==
  /\ l <= Len(Trace) /\ Trace[l].op # "open" /\ ~skip
  /\ LET e == Trace[l] w == Why(e)
     IN  /\ bad' = IF w = "" THEN bad ELSE Append(bad, [i |-> l, why |-> w])
         /\ skip' = (w # "" \/ (e.op = "many" /\ e.res # "ok"))
         /\ rows' = IF w # "" THEN rows
                    ELSE IF Prop = "C01" THEN ListAfter(e) ELSE After(rows, size, al, e)
  /\ l' = l + 1 /\ UNCHANGED <<size, al>>

Skip ==
  /\ l <= Len(Trace) /\ Trace[l].op # "open" /\ skip
  /\ l' = l + 1 /\ UNCHANGED <<rows, size, al, skip, bad>>

Done ==
  /\ l = Len(Trace) + 1
  /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, n |-> Len(Trace)])
  /\ l' = l + 1 /\ UNCHANGED <<rows, size, al, skip, bad>>

Next == Open \/ Call \/ Skip \/ Done
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
=============================================================================
