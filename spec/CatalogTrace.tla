---------------------------- MODULE CatalogTrace ----------------------------
(* Validates recorded histories of catalogs. After each operation that may   *)
(* change it the event holds the whole catalog (db).                         *)
EXTENDS Catalog, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, d, bad
vars == <<l, d, bad>>

Elems(s) == {s[i] : i \in 1..Len(s)}
\* the recorded catalog as value of d; wrong if a schema or object does not carry the name it is found under, where
\* the name of an object may be spelled in another way
Object(x) == [at |-> x.at, o |-> [n |-> x.n, view |-> x.view, q |-> x.q, key |-> x.key, cols |-> x.cols]]
Dump(db) == {[at |-> s.at, objects |-> {Object(x) : x \in Elems(s.objects)}] : s \in Elems(db)}
Named(db) == \A i \in 1..Len(db) : db[i].n = db[i].at
Size(db) == Len(db) = Cardinality(Dump(db))

After(e, ok, dd) ==
  IF e.res = "panic" THEN "an operation panicked"
  ELSE IF (e.res = "ok") # ok THEN IF ok THEN "an operation was refused" ELSE "an operation was accepted that must be refused"
  ELSE IF Dump(e.db) # dd THEN "the catalog holds something else"
  ELSE IF ~Named(e.db) \/ ~Size(e.db) THEN "a schema under another name" ELSE ""

Why(e) ==
  CASE e.op = "create" -> LET x == Create(d, e.n) IN After(e, x.ok, x.d)
    [] e.op = "put" -> LET x == Put(d, e.n, e.o) IN After(e, x.ok, x.d)
    [] e.op = "reload" -> After(e, TRUE, d)
    [] e.op = "describe" -> LET x == Describe(d, e.n, e.m)
                            IN  IF e.res = "panic" THEN "describing panicked"
                                ELSE IF (e.res = "ok") # x.ok THEN IF x.ok THEN "an object was not found" ELSE "something was found that does not exist"
                                ELSE IF e.cols # x.cols THEN "other columns" ELSE ""
    [] e.op = "meta" -> IF e.res = "panic" THEN "describing descriptions panicked"
                        ELSE IF e.cols # Meta \/ e.none # 0 THEN "descriptions are described wrongly" ELSE ""
    [] e.op = "abort" -> "process ended: " \o e.why
    [] OTHER -> ""

Init == l = 1 /\ d = Empty /\ bad = <<>>
Call == /\ l <= Len(Trace)
        /\ LET e == Trace[l] w == Why(e)
           IN  /\ bad' = IF w = "" THEN bad ELSE Append(bad, [i |-> l, why |-> w])
               /\ d' = CASE e.op = "open" -> Empty
                         [] e.op = "create" -> Create(d, e.n).d
                         [] e.op = "put" -> Put(d, e.n, e.o).d
                         [] OTHER -> d
        /\ l' = l + 1
Done == /\ l = Len(Trace) + 1
        /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, n |-> Len(Trace)])
        /\ l' = l + 1 /\ UNCHANGED <<d, bad>>
Next == Call \/ Done
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
=============================================================================
