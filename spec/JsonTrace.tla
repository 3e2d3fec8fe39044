------------------------------ MODULE JsonTrace -----------------------------
(* Validates recorded encodings and decodings of JSON.                       *)
(*  "open" : a decoder for type t over a container that holds nothing        *)
(*  "enc"  : the value was written; what the writer accepted, when it failed *)
(*  "dec"  : a text was read into the container; result, value, what else    *)
(*           the container still answers                                     *)
EXTENDS JsonText, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES l, typ, written, skip, bad
vars == <<l, typ, written, skip, bad>>

\* C07.  The first "enc" of a history uses a writer that takes everything; the others must deliver the same bytes.
WhyEnc(e) ==
  IF e.res = "panic" THEN "writing panicked"
  ELSE IF ~Finite(typ, e.v) THEN IF e.res = "ok" THEN "a value JSON cannot carry was written" ELSE ""
  ELSE IF e.erred THEN
    IF e.res = "ok" THEN "a write error was not reported"
    ELSE IF ~IsPrefixSeq(e.bytes, written) THEN "bytes delivered before a write error differ" ELSE ""
  ELSE IF e.res # "ok" THEN "writing failed"
  ELSE IF ~e.first THEN IF e.bytes # written THEN "bytes depend on how the writer accepts them" ELSE ""
  ELSE LET u == DecodeUtf8(e.bytes)
       IN  IF ~u.ok THEN "output is not UTF-8"
           ELSE LET x == Parse(u.s)
                IN  IF x.k = "bad" THEN "output is not JSON"
                    ELSE LET d == Denotes(x, typ, e.fl, TRUE)
                         IN  IF d.r # "ok" THEN "output is not a document of the type"
                             ELSE IF d.v # e.v THEN "output denotes another value" ELSE ""

\* C08
WhyDec(e) ==
  LET d == Decode(e.s, typ, e.fl)
  IN  IF e.res = "panic" THEN "reading panicked"
      ELSE IF d.r = "any" THEN ""
      ELSE IF d.r = "err" THEN IF e.res = "ok" THEN "a text that is not a document of the type was accepted" ELSE ""
      ELSE IF e.res # "ok" THEN "a document of the type was refused"
      ELSE IF e.v # d.v THEN "read a value the document does not denote"
      ELSE IF \E i \in 1..Len(e.stale) : e.stale[i] \notin Entries(typ, d.v, <<>>)
           THEN "something of a previous value remains" ELSE ""

\* C06
WhyRound(e) ==
  IF e.enc # "ok" THEN "writing failed"
  ELSE IF e.res # "ok" THEN "what was written cannot be read"
  ELSE IF e.v2 # e.v THEN "the value changed" ELSE ""

Why(e) == IF e.op = "abort" THEN "process ended: " \o e.why
          ELSE CASE e.op = "enc" -> WhyEnc(e) [] e.op = "dec" -> WhyDec(e) [] e.op = "round" -> WhyRound(e)

Init == l = 1 /\ typ = [k |-> "unit"] /\ written = <<>> /\ skip = FALSE /\ bad = <<>>
Open ==
  /\ l <= Len(Trace) /\ Trace[l].op = "open"
  /\ typ' = Trace[l].t /\ written' = <<>> /\ skip' = FALSE /\ l' = l + 1 /\ UNCHANGED bad
Call ==
  /\ l <= Len(Trace) /\ Trace[l].op # "open" /\ ~skip
  /\ LET e == Trace[l] w == Why(e)
     IN  /\ bad' = IF w = "" THEN bad ELSE Append(bad, [i |-> l, why |-> w])
         /\ skip' = (w # "" /\ e.op = "enc")
         /\ written' = IF e.op = "enc" /\ e.first THEN e.bytes ELSE written
  /\ l' = l + 1 /\ UNCHANGED typ
Skip ==
  /\ l <= Len(Trace) /\ Trace[l].op # "open" /\ skip
  /\ l' = l + 1 /\ UNCHANGED <<typ, written, skip, bad>>
Done ==
  /\ l = Len(Trace) + 1
  /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, n |-> Len(Trace)])
  /\ l' = l + 1 /\ UNCHANGED <<typ, written, skip, bad>>
Next == Open \/ Call \/ Skip \/ Done
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
=============================================================================
