---------------------------- MODULE SqlTypeTrace ----------------------------
(* Validates recorded results of type inference and statement validation.    *)
(*  "open" {db}            the catalog of the following events               *)
(*  "type" {s, res, cols}  a statement: its columns if it is a query         *)
EXTENDS SqlTypes, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, db
vars == <<l, bad, db>>

Why(e) ==
  IF e.op = "abort" THEN "process ended: " \o e.why
  ELSE LET p == TLCEval(Parse(e.s)) IN
  IF e.res = "panic" THEN "validation panicked"
  ELSE IF e.res = "fickle" THEN "a valid query has no type"
  ELSE IF p.r # "ok" THEN IF p.r = "err" /\ e.res # "text" THEN "a text that is no statement was accepted" ELSE ""
  ELSE IF e.res = "text" THEN "a statement was refused"
  ELSE IF HasEmptyStar(p.t) THEN ""
  ELSE LET x == TLCEval(Check(p.t, db)) IN
  IF x.ok # (e.res = "ok") THEN IF x.ok THEN "a valid statement was refused" ELSE "an invalid statement was accepted"
  ELSE IF ~x.ok THEN ""
  ELSE IF Len(e.cols) # Len(x.cols) THEN "the number of columns"
  ELSE IF \E i \in 1..Len(e.cols) : e.cols[i].n # x.cols[i].n THEN "the names of the columns"
  ELSE IF \E i \in 1..Len(e.cols) : e.cols[i].t # x.cols[i].t THEN "the type of a column"
  ELSE IF \E i \in 1..Len(e.cols) : e.cols[i].z # x.cols[i].z THEN "the nullability of a column"
  ELSE ""

Init == l = 1 /\ bad = <<>> /\ db = <<>>
Call == /\ l <= Len(Trace)
        /\ IF Trace[l].op = "open" THEN db' = Trace[l].db /\ UNCHANGED bad
           ELSE /\ LET w == Why(Trace[l]) IN bad' = IF w = "" THEN bad ELSE Append(bad, [i |-> l, why |-> w])
                /\ UNCHANGED db
        /\ l' = l + 1
Done == /\ l = Len(Trace) + 1
        /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, n |-> Len(Trace)])
        /\ l' = l + 1 /\ UNCHANGED <<bad, db>>
Next == Call \/ Done
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
=============================================================================
