------------------------------ MODULE TypeTrace -----------------------------
(* Validates recorded uses of the type parser and of paths. Events are       *)
(* independent of each other.                                                *)
(*  "parse"   {s, res, t}         the parser on text s                       *)
(*  "resolve" {t, s, res, p, sub} resolve_qualified_name, then extract       *)
(*  "extract" {t, p, ok, sub}     extract along a path of positions          *)
(*  "pair"    {a, b, ra, rb, cmp, pcmp, eq, pre, ppre} relations of two paths*)
(*  "sort"    {ps, out}           paths sorted / put into an ordered map     *)
EXTENDS TypeText, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

WhyParse(e) ==
  LET x == ParseType(e.s) IN
  IF e.res = "panic" THEN "parsing panicked"
  ELSE IF x.r = "any" THEN ""
  ELSE IF x.r = "ok" THEN IF e.res # "ok" THEN "a type was refused" ELSE IF e.t # x.t THEN "another type was read" ELSE ""
  ELSE IF e.res = "ok" THEN "a text that is no type was accepted" ELSE ""

WhyResolve(e) ==
  LET x == Resolve(e.t, e.s) IN
  IF e.res = "panic" THEN "resolution panicked"
  ELSE IF x.r = "any" THEN ""
  ELSE IF x.r = "err" THEN IF e.res = "ok" THEN "a name without a component was resolved" ELSE ""
  ELSE IF e.res # "ok" THEN "the name of a component was refused"
  ELSE IF e.p # x.p THEN "the name led to another path"
  ELSE IF ~e.sub.ok \/ e.sub.t # SubType(e.t, x.p).t THEN "the path does not lead to the component" ELSE ""

WhyExtract(e) ==
  LET x == SubType(e.t, e.p) IN
  IF x.ok # e.sub.ok THEN IF x.ok THEN "a component cannot be reached" ELSE "a path to nothing was accepted"
  ELSE IF x.ok /\ x.t # e.sub.t THEN "the path leads to another component" ELSE ""

WhyPair(e) ==
  IF e.ra # e.a \/ e.rb # e.b THEN "a path does not consist of its components"
  ELSE IF e.cmp # LexCmp(e.a, e.b) \/ e.pcmp # e.cmp THEN "paths are not ordered lexicographically"
  ELSE IF e.eq # (e.a = e.b) \/ e.ne # (e.a # e.b) THEN "equality of paths"
  ELSE IF e.pre # IsPrefixSeq(e.a, e.b) THEN "prefix test"
  ELSE IF e.ppre # ProperPrefix(e.a, e.b) THEN "proper prefix test" ELSE ""

Sorted(ps) == \A i \in 1..(Len(ps) - 1) : LexCmp(ps[i], ps[i + 1]) = -1
WhySort(e) == IF ~Sorted(e.out) \/ {e.out[i] : i \in 1..Len(e.out)} # {e.ps[i] : i \in 1..Len(e.ps)}
              THEN "an ordered collection of paths" ELSE ""

Why(e) == CASE e.op = "parse" -> WhyParse(e) [] e.op = "resolve" -> WhyResolve(e) [] e.op = "extract" -> WhyExtract(e)
            [] e.op = "pair" -> WhyPair(e) [] e.op = "sort" -> WhySort(e)
            [] e.op = "abort" -> "process ended: " \o e.why

Init == l = 1 /\ bad = <<>>
Call == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN bad' = IF w = "" THEN bad ELSE Append(bad, [i |-> l, why |-> w])
        /\ l' = l + 1
Done == /\ l = Len(Trace) + 1
        /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, n |-> Len(Trace)])
        /\ l' = l + 1 /\ UNCHANGED bad
Next == Call \/ Done
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
=============================================================================
