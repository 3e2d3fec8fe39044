----------------------------- MODULE CatalogGen -----------------------------
(* Every catalog over a few names, reached by every operation in every state *)
EXTENDS Catalog, Json, IOUtils
A == <<97>>   UA == <<65>>   B == <<98>>   T == <<116>>   UT == <<84>>   Z == <<122>>
C(n, t, nn) == [n |-> n, t |-> t, nn |-> nn, pk |-> FALSE]
Table(n) == [n |-> n, view |-> FALSE, q |-> <<>>, key |-> <<A>>, cols |-> <<C(A, "numeric", TRUE), C(B, "varchar", FALSE)>>]
View(n) == [n |-> n, view |-> TRUE, q |-> <<81>>, key |-> <<>>, cols |-> <<C(B, "date", FALSE)>>]
Most == atoi(IOEnv.MOST)
VARIABLES d, h
Ops == {[op |-> "create", n |-> n] : n \in {A, UA, B}}
       \cup {[op |-> "put", n |-> n, o |-> o] : n \in {UA, B}, o \in {Table(T), Table(UT), View(UT), Table(Z)}}
       \cup {[op |-> "reload", how |-> x] : x \in {"value", "text"}}
Apply(o) == CASE o.op = "create" -> Create(d, o.n).d [] o.op = "put" -> Put(d, o.n, o.o).d [] OTHER -> d
Init == d = Empty /\ h = <<>>
Next == \E o \in Ops : /\ Len(h) < Most /\ d' = Apply(o) /\ h' = Append(h, o)
                       /\ PrintT(<<"CASE", ToJson([h |-> h'])>>)
Spec == Init /\ [][Next]_<<d, h>>
Seen == d
\* laws: names stay unique; what was created is found; a refusal changes nothing; other schemas stay as they are
Unique == \A x, y \in d : x # y => ~Same(x.at, y.at)
Laws == \A o \in Ops : o.op = "create" =>
  LET r == Create(d, o.n) IN /\ r.ok = ~Has(d, o.n) /\ (~r.ok => r.d = d) /\ (r.ok => r.d \ d = {[at |-> o.n, objects |-> {}]})
Local == \A o \in Ops, n \in {A, UA, B}, m \in {T, UT, Z} :
  (o.op = "put" /\ ~(Same(o.n, n) /\ Same(o.o.n, m))) => Describe(Put(d, o.n, o.o).d, n, m) = Describe(d, n, m)
=============================================================================
