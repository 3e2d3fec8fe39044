------------------------------ MODULE SqlTrace ------------------------------
(* Validates recorded uses of the SQL parser and of names. Events are        *)
(* independent of each other.                                                *)
(*  "parse" {s, res, t}  the statement parser on text s                      *)
(*  "same"  {s, res, t, v, vres, vt} two writings of one statement           *)
(*  "names" {ns, ...}    relations between names ns, as matrices             *)
EXTENDS SqlText, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

WhyParse(e) ==
  LET x == TLCEval(Parse(e.s)) IN
  IF e.res = "panic" THEN "parsing panicked"
  ELSE IF x.r = "any" THEN ""
  ELSE IF x.r = "ok" THEN IF e.res # "ok" THEN "a statement was refused" ELSE IF e.t # x.t THEN "another statement was read" ELSE ""
  ELSE IF e.res = "ok" THEN "a text that is no statement was accepted" ELSE ""

WhySame(e) ==
  LET a == WhyParse([s |-> e.s, res |-> e.res, t |-> e.t]) b == WhyParse([s |-> e.v, res |-> e.vres, t |-> e.vt])
  IN  IF a # "" THEN a ELSE IF b # "" THEN b
      ELSE IF e.res # e.vres \/ e.t # e.vt THEN "case or white space changed the statement" ELSE ""

\* letters whose upper case is another single character, of several scripts
Pairs == {<<233, 201>>, <<255, 376>>, <<945, 913>>, <<1103, 1071>>, <<1078, 1046>>, <<66600, 66560>>}
Pinned(c) == c < 128 \/ \E p \in Pairs : c \in {p[1], p[2]}
Fold(c) == IF c < 128 THEN UpperC(c) ELSE IF \E p \in Pairs : p[1] = c THEN (CHOOSE p \in Pairs : p[1] = c)[2] ELSE c
FoldAll(s) == TLCEval(SeqMap(Fold, s))

WhyNames(e) ==
  LET n == Len(e.ns)
      I == 1..n
      f == TLCEval([i \in I |-> FoldAll(e.ns[i])])
      pin == TLCEval([i \in I |-> \A j \in 1..Len(e.ns[i]) : Pinned(e.ns[i][j])])
      Where(x) == CHOOSE i \in I : e.ns[i] = x
      at == TLCEval([k \in 1..Len(e.sorted) |-> IF \E i \in I : e.ns[i] = e.sorted[k] THEN Where(e.sorted[k]) ELSE 0])
      Times(x, s) == Cardinality({k \in 1..Len(s) : s[k] = x})
  IN  IF e.text # e.ns \/ e.show # e.ns THEN "a name lost its spelling"
      ELSE IF \E i, j \in I : pin[i] /\ pin[j] /\ e.eq[i][j] # (f[i] = f[j]) THEN "equality of names"
      ELSE IF \E i, j \in I : e.ne[i][j] = e.eq[i][j] \/ e.seq[i][j] # e.eq[i][j] THEN "the ways to compare names for equality differ"
      ELSE IF \E i, j \in I : e.pcmp[i][j] # e.cmp[i][j] \/ e.scmp[i][j] # e.cmp[i][j] THEN "the ways to order names differ"
      ELSE IF \E i, j \in I : e.cmp[i][j] \notin {-1, 0, 1} \/ e.cmp[j][i] # -e.cmp[i][j] THEN "the order of names is not antisymmetric"
      ELSE IF \E i, j \in I : (e.cmp[i][j] = 0) # e.eq[i][j] THEN "order and equality of names differ"
      ELSE IF \E i, j, k \in I : e.cmp[i][j] <= 0 /\ e.cmp[j][k] <= 0 /\ e.cmp[i][k] > 0 THEN "the order of names is not transitive"
      ELSE IF Len(e.sorted) # n \/ (\E i \in I : Times(e.ns[i], e.sorted) # Times(e.ns[i], e.ns)) THEN "sorting names lost one"
      ELSE IF \E i \in 1..(n - 1) : e.cmp[at[i]][at[i + 1]] > 0 THEN "names are not sorted"
      ELSE IF e.keys # Cardinality({{j \in I : e.eq[i][j]} : i \in I}) THEN "an ordered set of names" ELSE ""

Why(e) == CASE e.op = "parse" -> WhyParse(e) [] e.op = "same" -> WhySame(e) [] e.op = "names" -> WhyNames(e)
            [] e.op = "abort" -> "process ended: " \o e.why

Init == l = 1 /\ bad = <<>>
Call == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN bad' = IF w = "" THEN bad ELSE Append(bad, [i |-> l, why |-> w])
        /\ l' = l + 1
Done == /\ l = Len(Trace) + 1
        /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, n |-> Len(Trace)])
        /\ l' = l + 1 /\ UNCHANGED bad
Next == Call \/ Done
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
=============================================================================
