----------------------------- MODULE DataSource -----------------------------
(* The container of values: a map from paths to what was last stored there. *)
(*  entry: [kind |-> a primitive's name, b] | [kind |-> "string", s]         *)
(*       | [kind |-> "case", i]                                              *)
EXTENDS Lib

\* the empty map
Nothing == <<>>
Put(m, p, e) == [q \in DOMAIN m \cup {p} |-> IF q = p THEN e ELSE m[q]]
Has(m, p) == p \in DOMAIN m

\* what asking for kind at p answers: [ok, ..]
Ask(m, p, kind) ==
  IF ~Has(m, p) THEN [ok |-> FALSE]
  ELSE LET e == m[p]
       IN  CASE kind = "bytes"  -> IF e.kind = "string" THEN [ok |-> TRUE, b |-> Utf8Seq(e.s)] ELSE [ok |-> FALSE]
             [] kind = "length" -> IF e.kind = "string" THEN [ok |-> TRUE, n |-> Len(Utf8Seq(e.s))] ELSE [ok |-> FALSE]
             [] kind = "case"   -> IF e.kind = "case" THEN [ok |-> TRUE, n |-> e.i] ELSE [ok |-> FALSE]
             [] OTHER           -> IF e.kind = kind THEN [ok |-> TRUE, b |-> e.b] ELSE [ok |-> FALSE]
=============================================================================
