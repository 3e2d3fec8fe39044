------------------------------ MODULE PageImpl ------------------------------
(* The page as the code keeps it: bytes.  Row count and slots grow up from   *)
(* byte 0, rows grow down from the end; a slot holds offset + padding.       *)
(* TLC checks that this design refines Page for every small history, that    *)
(* slots and rows never overlap, and that nothing is lost.                   *)
EXTENDS Page, IOUtils, TLC

\* small constants, from the environment so that one configuration serves all sizes
Size == atoi(IOEnv.SIZE)
Al == atoi(IOEnv.AL)
MaxRows == atoi(IOEnv.ROWS)
Lens == {0, 1, Al, Al + 1}
Ids == 1..(MaxRows + 1)

VARIABLES page,    \* byte -> contents (an opaque value; a number in the first byte of a slot)
          rows     \* the abstract list the bytes must represent
vars == <<page, rows>>

Bytes == 0..(Size - 1)

N(p) == p[0]
Get(p, i) == p[Slot * (i + 1)]
Off(p, i) == Get(p, i) - (Get(p, i) % Al)
Pad(p, i) == Get(p, i) % Al
Put(p, pos, v) == [b \in Bytes |-> IF b = pos THEN v ELSE IF b > pos /\ b < pos + Slot THEN "slot" ELSE p[b]]

PutRow(p, off, r) == [b \in Bytes |-> IF b >= off /\ b < off + r.len THEN <<r.id, b - off>> ELSE p[b]]

LastOff(p) == IF N(p) > 0 THEN Off(p, N(p) - 1) ELSE Size

\* move bytes [lo, hi) by d (either direction), as memmove
Move(p, lo, hi, d) == [b \in Bytes |-> IF b >= lo + d /\ b < hi + d THEN p[b - d] ELSE p[b]]

RECURSIVE ShiftSlotsUp(_, _, _, _), ShiftSlotsDown(_, _, _, _)
ShiftSlotsUp(p, i, low, d) ==      \* slots i..low move one up, i descending
  IF i < low THEN p ELSE ShiftSlotsUp(Put(p, Slot * (i + 2), Get(p, i) - d), i - 1, low, d)
ShiftSlotsDown(p, i, n, d) ==      \* slots i..n-1 move one down, i ascending
  IF i >= n THEN p ELSE ShiftSlotsDown(Put(p, Slot * i, Get(p, i) + d), i + 1, n, d)

DoInsert(p, i, r) ==
  LET n == N(p)
      d == AlignUp(r.len, Al)
      hi == IF i > 0 THEN Off(p, i - 1) ELSE Size
      moved == Move(p, LastOff(p), hi, -d)
      slots == ShiftSlotsUp(moved, n - 1, i, d)
      withRow == PutRow(slots, hi - d, r)
      withSlot == Put(withRow, Slot * (i + 1), (hi - d) + (d - r.len))
  IN  Put(withSlot, 0, n + 1)

DoRemove(p, i) ==
  LET n == N(p)
      hi == IF i > 0 THEN Off(p, i - 1) ELSE Size
      d == hi - Off(p, i)
      slots == ShiftSlotsDown(p, i + 1, n, d)
      moved == Move(slots, Off(p, n - 1), Off(p, i), d)
  IN  Put(IF i < n - 1 THEN moved ELSE p, 0, n - 1)

RowAt(p, i) ==
  LET o == Off(p, i)
      e == (IF i > 0 THEN Off(p, i - 1) ELSE Size) - Pad(p, i)
  IN  [k \in 1..(e - o) |-> p[o + k - 1]]

Init == /\ page = Put([b \in Bytes |-> "dirt"], 0, 0)
        /\ rows = <<>>

FreeId == CHOOSE x \in Ids : \A k \in 1..Len(rows) : rows[k].id # x
RowOf(len) == [len |-> len, id |-> FreeId]

InsertRow(len, i) ==
  /\ Len(rows) < MaxRows /\ i <= Len(rows)
  /\ Fits(rows, Size, Al, RowOf(len))
  /\ page' = DoInsert(page, i, RowOf(len))
  /\ rows' = InsertIdx(rows, i + 1, RowOf(len))

RemoveRow(i) ==
  /\ i < Len(rows)
  /\ page' = DoRemove(page, i)
  /\ rows' = RemoveIdx(rows, i + 1)

Next == \/ \E len \in Lens, i \in 0..MaxRows : InsertRow(len, i)
        \/ \E i \in 0..MaxRows : RemoveRow(i)
Spec == Init /\ [][Next]_vars

\* dead bytes do not matter for what can happen next
View == <<rows, N(page), [i \in 1..Len(rows) |-> Get(page, i - 1)]>>

\* The bytes represent the list
Represents ==
  /\ N(page) = Len(rows)
  /\ \A i \in 1..Len(rows) :
       RowAt(page, i - 1) = [k \in 1..rows[i].len |-> <<rows[i].id, k - 1>>]

\* slots end before the rows begin, rows do not overlap and are aligned
Disjoint ==
  /\ Slot * (Len(rows) + 1) <= LastOff(page)
  /\ \A i \in 0..(Len(rows) - 1) :
       /\ Off(page, i) % Al = 0
       /\ Off(page, i) + AlignUp(rows[i + 1].len, Al) = IF i > 0 THEN Off(page, i - 1) ELSE Size

\* the free area is exactly what the abstract page says
CapacityExact == LastOff(page) = Upper(rows, Size, Al)

\* a non-empty row of the advertised size always fits, one byte more never does
AdvertisedIsExact ==
  LET m == MaxInsert(rows, Size, Al)
  IN  /\ m > 0 => Fits(rows, Size, Al, [len |-> m, id |-> 0])
      /\ ~Fits(rows, Size, Al, [len |-> m + 1, id |-> 0])
=============================================================================
