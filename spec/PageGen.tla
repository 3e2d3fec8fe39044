------------------------------ MODULE PageGen -------------------------------
(* One history for every transition of the abstract page: the shortest      *)
(* history to each reachable list of row sizes, extended by every operation *)
(* (also those that must be refused).  Replayed into the real code.         *)
EXTENDS Page, Json, IOUtils, TLC

Size == atoi(IOEnv.SIZE)
Al == atoi(IOEnv.AL)
Lens == {atoi(IOEnv.L1), atoi(IOEnv.L2), atoi(IOEnv.L3), atoi(IOEnv.L4)}
MaxOps == atoi(IOEnv.DEPTH)

VARIABLES hist, rows
vars == <<hist, rows>>

\* contents are made up by the driver
R(len) == [len |-> len, id |-> ""]
Ops == {[op |-> "append", row |-> R(n), i |-> 0] : n \in Lens}
  \cup {[op |-> "insert", row |-> R(n), i |-> i] : n \in Lens, i \in 0..(Len(rows) + 1)}
  \cup {[op |-> "remove", row |-> R(0), i |-> i] : i \in 0..Len(rows)}
  \cup {[op |-> "get", row |-> R(0), i |-> i] : i \in 0..Len(rows)}
  \cup {[op |-> "append", row |-> R(MaxInsert(rows, Size, Al)), i |-> 0],
        [op |-> "append", row |-> R(MaxInsert(rows, Size, Al) + 1), i |-> 0],
        [op |-> "insert", row |-> R(MaxInsert(rows, Size, Al)), i |-> 0],
        [op |-> "insert", row |-> R(MaxInsert(rows, Size, Al) + 1), i |-> 0],
        [op |-> "init", row |-> R(0), i |-> 0]}

Init == hist = <<>> /\ rows = <<>>
Next == \E o \in Ops :
  /\ PrintT(<<"CASE", ToJson([size |-> Size, al |-> Al, ops |-> Append(hist, o)])>>)
  /\ Accepted(rows, Size, Al, o)
  /\ o.row.len \in Lens \cup {0}       \* probes of the exact maximum are not extended
  /\ rows' = After(rows, Size, Al, o)
  /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
Bound == Len(hist) < MaxOps
View == SeqMap(LAMBDA r : r.len, rows)
=============================================================================
