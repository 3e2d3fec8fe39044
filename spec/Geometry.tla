------------------------------ MODULE Geometry ------------------------------
(* Storage locations, identifiers of volumes, default parameters, rounding.  *)
(* Numbers are sequences of bytes or bits, most significant first, as they   *)
(* exceed what TLC can compute with.                                         *)
EXTENDS Lib

ByteBits(b) == [i \in 1..8 |-> (b \div (2 ^ (8 - i))) % 2]
Bits(bs) == TLCEval([i \in 1..(8 * Len(bs)) |-> ByteBits(bs[((i - 1) \div 8) + 1])[((i - 1) % 8) + 1]])
FromBits(bits) == TLCEval([i \in 1..(Len(bits) \div 8) |-> FoldLeft(LAMBDA a, b : 2 * a + b, 0, SubSeq(bits, 8 * i - 7, 8 * i))])

\* sum of two numbers of the same width: carry and digits
AddBase(a, b, base) ==
  FoldRight(LAMBDA i, acc : LET t == a[i] + b[i] + acc[1] IN <<t \div base, <<t % base>> \o acc[2]>>,
            [i \in 1..Len(a) |-> i], <<0, <<>>>>)
Less(a, b) == LexCmp(a, b) < 0
\* product of two numbers of bytes, Len(a) + Len(b) wide
Times(a, b) ==
  LET n == Len(a) m == Len(b)
      Row(i) == \* a[i] * b at its place
        LET r == FoldRight(LAMBDA x, acc : LET t == a[i] * x + acc[1] IN <<t \div 256, <<t % 256>> \o acc[2]>>, b, <<0, <<>>>>)
        IN  Fill(i - 1, 0) \o <<r[1]>> \o r[2] \o Fill(n - i, 0)
  IN  FoldLeft(LAMBDA acc, i : AddBase(acc, Row(i), 256)[2], Fill(n + m, 0), [i \in 1..n |-> i])

---------------------------------------------------------------------------
\* Locations: a volume (one byte) and an offset (W bytes of which the first must be 0)
Fits(offset) == offset[1] = 0
PlaceCmp(v, o, w, p) == IF v # w THEN CmpInt(v, w) ELSE LexCmp(o, p)

\* Identifiers: n requests
IdsOk(ids) ==
  \A i \in 1..Len(ids) :
    /\ ids[i] >= -1 /\ ids[i] <= 255
    /\ ids[i] = -1 => i > 255            \* (one identifier may stay unused)
    /\ \A j \in 1..(i - 1) : ids[i] = -1 \/ ids[i] # ids[j]

\* Default parameters of a volume of size x (8 bytes): whole blocks of 4096 bytes, at least one, at most 2^32
Acceptable(x) ==
  LET b == Bits(x)
  IN  /\ \A i \in 53..64 : b[i] = 0
      /\ \E i \in 1..52 : b[i] = 1
      /\ \/ \A i \in 1..20 : b[i] = 0
         \/ (\A i \in 1..64 : (b[i] = 1) <=> (i = 20))   \* exactly 2^32 blocks

\* x rounded up to a multiple of 2^a, within the given number of bits; <<>> if it does not fit
RoundUp(x, a, width) ==
  LET b == Bits(x) n == Len(b)
      low == \A i \in (n - a + 1)..n : b[i] = 0
      cut == [i \in 1..n |-> IF i > n - a THEN 0 ELSE b[i]]
      one == [i \in 1..n |-> IF i = n - a THEN 1 ELSE 0]
      r == IF low THEN <<0, b>> ELSE IF a = n THEN <<1, b>> ELSE AddBase(cut, one, 2)
  IN  IF r[1] = 1 \/ \E i \in 1..(n - width) : r[2][i] = 1 THEN <<>> ELSE FromBits(r[2])

\* y blocks of b bytes (b > 0) are just enough for x bytes
JustEnough(x, b, y) ==
  LET z == Fill(8, 0)
      whole == Times(y, b)
      less == \* (y - 1) * b < x   <=>   y * b < x + b
        LET s == AddBase(z \o x, z \o b, 256)[2] IN Less(whole, s)
  IN  ~Less(whole, z \o x) /\ less

---------------------------------------------------------------------------
\* Are the results of a call as they must be?
WhyCall(e) ==
  CASE e.op = "place" -> IF ~Fits(e.a.o) THEN (IF e.res = "panic" THEN "" ELSE "an offset that does not fit was accepted")
                         ELSE IF e.res # "ok" THEN "an offset that fits was refused"
                         ELSE IF e.v # e.a.v \/ e.o # e.a.o THEN "a location lost its volume or offset" ELSE ""
    [] e.op = "order" -> IF ~Fits(e.a.o) \/ ~Fits(e.b.o) THEN (IF e.res = "panic" THEN "" ELSE "an offset that does not fit was accepted")
                         ELSE IF e.res # "ok" THEN "an offset that fits was refused"
                         ELSE LET r == PlaceCmp(e.a.v, e.a.o, e.b.v, e.b.o)
                              IN  IF e.cmp # r \/ e.pcmp # r \/ e.eq # (r = 0) \/ e.lt # (r < 0) THEN "order of locations" ELSE ""
    [] e.op = "ids" -> IF e.res = "ok" /\ IdsOk(e.ids) THEN "" ELSE "identifiers of volumes"
    [] e.op = "params" -> IF ~Acceptable(e.x) THEN (IF e.res = "panic" THEN "" ELSE "parameters for an impossible size")
                          ELSE IF e.res # "ok" THEN "parameters refused"
                          ELSE IF e.size # e.x \/ e.block # 12 \/ e.header \notin 9..12 THEN "default parameters" ELSE ""
    [] e.op = "align" -> LET r == RoundUp(e.x, e.a, IF e.bits = 0 THEN 64 ELSE e.bits)
                         IN  IF r = <<>> THEN ""
                             ELSE IF e.res # "ok" \/ e.y # r THEN "rounding up" ELSE ""
    [] e.op = "blocks" -> IF e.res = "ok" /\ JustEnough(e.x, e.b, e.y) THEN "" ELSE "number of blocks"
    [] OTHER -> "process ended"
=============================================================================
