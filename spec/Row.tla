-------------------------------- MODULE Row ---------------------------------
(* The row format: what the bytes of an encoded value are.                   *)
(* A cell is <<value, mask>>: one byte, of which only the bits in mask are   *)
(* defined by the format; <<0, 0>> is padding.                               *)
EXTENDS Types

Pad == <<0, 0>>
PadTo(cells, m) == cells \o Fill(AlignUp(Len(cells), m) - Len(cells), Pad)

\* indices of s in stable descending order of the values
Order(s) ==
  IF Len(s) < 2 THEN [i \in 1..Len(s) |-> i]
  ELSE LET keys == SetToSortSeq({s[i] : i \in 1..Len(s)}, LAMBDA a, b : a > b)
       IN  Concat(SeqMap(LAMBDA k : SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = k), keys))

TagBits(t) == RequiredBits(Len(t.f) - 1)

---------------------------------------------------------------------------
\* Flattening a type: f sizes of fixed fields, b widths of enum tags, v alignments of variable fields
ContainerSize(n) == IF n > 64 THEN 16 ELSE IF n > 32 THEN 8 ELSE IF n > 16 THEN 4 ELSE IF n > 8 THEN 2 ELSE 1

\* first fit of tags, widest first; each container is [size, used, items : Seq([tag index, offset])]
Containers(b) ==
  LET ord == Order(b)
      Place(cs, i) ==
        LET fits == {j \in 1..Len(cs) : cs[j].used + b[i] <= 8 * cs[j].size}
        IN  IF fits = {} THEN Append(cs, [size |-> ContainerSize(b[i]), used |-> b[i],
                                          items |-> <<[i |-> i, off |-> 0]>>])
            ELSE LET j == CHOOSE j \in fits : \A k \in fits : j <= k
                 IN  [cs EXCEPT ![j].used = @ + b[i],
                                ![j].items = Append(@, [i |-> i, off |-> cs[j].used])]
  IN  FoldLeft(Place, <<>>, ord)

RECURSIVE FlatT(_), RowAlign(_)
JoinT(x, y) == [f |-> x.f \o y.f, b |-> x.b \o y.b, v |-> x.v \o y.v]
FlatT(t) ==
  CASE t.k = "unit"   -> [f |-> <<>>, b |-> <<>>, v |-> <<>>]
    [] t.k = "prim"   -> [f |-> <<PrimSize(t.p)>>, b |-> <<>>, v |-> <<>>]
    [] t.k = "string" -> [f |-> <<4>>, b |-> <<>>, v |-> <<1>>]
    [] t.k = "enum"   -> [f |-> <<>>, b |-> <<TagBits(t)>>, v |-> <<MaxSeq(SeqMap(RowAlign, Comps(t)), 1)>>]
    [] OTHER          -> FoldLeft(JoinT, [f |-> <<>>, b |-> <<>>, v |-> <<>>], SeqMap(FlatT, Comps(t)))

AlignOfFlat(x) == MaxOf(MaxOf(MaxSeq(x.f, 1), MaxSeq(x.v, 1)), MaxSeq(SeqMap(LAMBDA c : c.size, Containers(x.b)), 1))
RowAlign(t) == AlignOfFlat(FlatT(t))

---------------------------------------------------------------------------
\* Flattening a value alongside: f cells of fixed fields, b tags, v cells of variable fields
U32Bytes(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Defined(bytes) == SeqMap(LAMBDA x : <<x, 255>>, bytes)

Bit(n, j) == IF j > 30 THEN 0 ELSE (n \div 2^j) % 2
ContainerCells(c, tags, b) ==
  LET At(k) == LET hit == {m \in 1..Len(c.items) : c.items[m].off <= k /\ k < c.items[m].off + b[c.items[m].i]}
               IN  IF hit = {} THEN <<0, 0>>
                   ELSE LET m == CHOOSE m \in hit : TRUE
                        IN  <<Bit(tags[c.items[m].i], k - c.items[m].off), 1>>
      Byte(j) == LET bits == [q \in 1..8 |-> At(8 * (j - 1) + q - 1)]
                 IN  <<SumSeq([q \in 1..8 |-> bits[q][1] * 2^(q-1)]), SumSeq([q \in 1..8 |-> bits[q][2] * 2^(q-1)])>>
  IN  [j \in 1..c.size |-> Byte(j)]

RECURSIVE FlatV(_, _), Encode(_, _)
FlatV(t, v) ==
  CASE t.k = "unit"   -> [f |-> <<>>, b |-> <<>>, v |-> <<>>]
    [] t.k = "prim"   -> [f |-> <<Defined(v.b)>>, b |-> <<>>, v |-> <<>>]
    [] t.k = "string" -> LET u == Utf8Seq(v.s)
                         IN  [f |-> <<Defined(U32Bytes(Len(u)))>>, b |-> <<>>, v |-> <<Defined(u)>>]
    [] t.k = "enum"   -> [f |-> <<>>, b |-> <<v.i>>, v |-> <<Encode(t.f[v.i + 1].t, v.v)>>]
    [] OTHER          -> LET c == Comps(t)
                         IN  FoldLeft(JoinT, [f |-> <<>>, b |-> <<>>, v |-> <<>>],
                                      [i \in 1..Len(c) |-> FlatV(c[i], v.c[i])])

\* the cells of the encoded value
Encode(t, v) ==
  LET ft == FlatT(t)
      fv == FlatV(t, v)
      cs == Containers(ft.b)
      sizes == ft.f \o SeqMap(LAMBDA c : c.size, cs)
      cells == fv.f \o SeqMap(LAMBDA c : ContainerCells(c, fv.b, ft.b), cs)
      fixed == Concat(SeqMap(LAMBDA i : cells[i], Order(sizes)))
      valign == MaxSeq(ft.v, 1)
      vord == Order(ft.v)
      vars == Concat(SeqMap(LAMBDA i : PadTo(fv.v[i], ft.v[i]), vord))
  IN  PadTo(PadTo(fixed, valign) \o vars, AlignOfFlat(ft))

AndByte(x, m) == SumSeq([q \in 1..8 |-> ((x \div 2^(q-1)) % 2) * ((m \div 2^(q-1)) % 2) * 2^(q-1)])
CellMatches(c, x) == IF c[2] = 255 THEN x = c[1] ELSE IF c[2] = 0 THEN TRUE ELSE AndByte(x, c[2]) = c[1]
Matches(cells, bytes) == /\ Len(bytes) >= Len(cells)
                         /\ \A i \in 1..Len(cells) : CellMatches(cells[i], bytes[i])
=============================================================================
