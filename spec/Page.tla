------------------------------- MODULE Page --------------------------------
(* The slotted page as its users see it: a list of rows with a capacity.    *)
(* A row is [len |-> number of bytes, id |-> its contents (opaque)].        *)
EXTENDS Lib

Slot == 4                       \* bytes of a slot, and of the row count

RowBytes(rows, al) == SumSeq(SeqMap(LAMBDA r : AlignUp(r.len, al), rows))

\* end of the free area, and what is needed below it for one more slot
Upper(rows, size, al) == size - RowBytes(rows, al)
SlotFits(rows, size, al) == Slot * (Len(rows) + 2) <= Upper(rows, size, al)

\* the advertised maximum size of another row
MaxInsert(rows, size, al) ==
  LET lower == AlignUp(Slot * (Len(rows) + 2), al)
      upper == Upper(rows, size, al)
  IN  IF upper >= lower THEN upper - lower ELSE 0

Fits(rows, size, al, row) == /\ SlotFits(rows, size, al)
                             /\ row.len <= MaxInsert(rows, size, al)

\* "many" appends its rows one after the other
RECURSIVE AllFit(_, _, _, _, _)
AllFit(rows, size, al, more, i) ==
  \/ i > Len(more)
  \/ Fits(rows, size, al, more[i]) /\ AllFit(Append(rows, more[i]), size, al, more, i + 1)

\* is the operation accepted, and what list does it leave (indices are 0-based)
Accepted(rows, size, al, op) ==
  CASE op.op = "init"   -> TRUE
    [] op.op = "append" -> Fits(rows, size, al, op.row)
    [] op.op = "many"   -> AllFit(rows, size, al, op.rows, 1)
    [] op.op = "insert" -> op.i <= Len(rows) /\ Fits(rows, size, al, op.row)
    [] op.op = "remove" -> op.i < Len(rows)
    [] op.op = "get"    -> op.i < Len(rows)

After(rows, size, al, op) ==
  IF ~Accepted(rows, size, al, op) THEN rows
  ELSE CASE op.op = "init"   -> <<>>
         [] op.op = "append" -> Append(rows, op.row)
         [] op.op = "many"   -> rows \o op.rows
         [] op.op = "insert" -> InsertIdx(rows, op.i + 1, op.row)
         [] op.op = "remove" -> RemoveIdx(rows, op.i + 1)
         [] op.op = "get"    -> rows
=============================================================================
