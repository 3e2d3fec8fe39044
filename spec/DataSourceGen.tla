---------------------------- MODULE DataSourceGen ---------------------------
(* Every state of a container over a few paths, and a shortest history that  *)
(* leads to it, extended by every operation.                                 *)
EXTENDS DataSource, Json, IOUtils, TLC
Paths == {<<>>, <<0>>, <<0, 0>>, <<1>>, <<0, 1>>}
Entries == {[kind |-> "u8", b |-> <<7>>], [kind |-> "i8", b |-> <<7>>], [kind |-> "string", s |-> <<65>>],
            [kind |-> "case", i |-> 7], [kind |-> "bool", b |-> <<1>>]}
Most == atoi(IOEnv.MOST)
VARIABLES m, h
Ops == {[op |-> "set", p |-> p, e |-> e] : p \in Paths, e \in Entries} \cup {[op |-> "clear"]}
Apply(o) == IF o.op = "clear" THEN Nothing ELSE Put(m, o.p, o.e)
Init == m = Nothing /\ h = <<>>
Next == \E o \in Ops : /\ Cardinality(DOMAIN Apply(o)) <= Most
                       /\ m' = Apply(o) /\ h' = Append(h, o)
                       /\ PrintT(<<"CASE", ToJson([h |-> h'])>>)
Spec == Init /\ [][Next]_<<m, h>>
View == m
\* an answer never depends on other paths
Local == \A p \in Paths, o \in Ops :
           (o.op = "set" /\ o.p # p) => \A k \in {"u8", "i8", "bytes", "length", "case", "bool"} :
                                           Ask(Put(m, o.p, o.e), p, k) = Ask(m, p, k)
=============================================================================
