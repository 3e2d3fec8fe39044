--------------------------- MODULE GeometryModel ---------------------------
(* The design: volume and offset packed into one number, and the usual       *)
(* tricks of rounding, on small words, against Geometry. Every case is also  *)
(* printed, widened, to be run.                                              *)
EXTENDS Geometry, Json, IOUtils

\* words of 8 bits: 3 bits for the volume, 5 for the offset
Pack(v, o) == v * 32 + o
BitSeq(n, w) == [i \in 1..w |-> (n \div (2 ^ (w - i))) % 2]
Num(bits) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, bits)

VARIABLES kind, x, y
vars == <<kind, x, y>>
Init == kind \in {"pack", "round", "blocks", "params"} /\ x = -1 /\ y = -1
Pick(kx, ky) == x = -1 /\ x' \in kx /\ y' \in ky /\ UNCHANGED kind
Next == \/ kind = "pack" /\ Pick(0..255, 0..255)
        \/ kind = "round" /\ Pick(0..255, 0..8)
        \/ kind = "blocks" /\ Pick(0..255, 1..40)
        \/ kind = "params" /\ Pick(0..63, 0..63)
Spec == Init /\ [][Next]_vars
Ready == x # -1

Packing == Ready /\ kind = "pack" =>
  LET v == x \div 32 o == x % 32 w == y \div 32 p == y % 32
  IN  /\ Pack(v, o) \div 32 = v /\ Pack(v, o) % 32 = o
      /\ CmpInt(Pack(v, o), Pack(w, p)) = PlaceCmp(v, <<0, o>>, w, <<0, p>>)
\* (n + 2^a - 1) with the low bits cut
Rounding == Ready /\ kind = "round" =>
  LET n == ((x + 2 ^ y - 1) \div (2 ^ y)) * (2 ^ y)
      r == RoundUp(<<0, x>>, y, 8)
  IN  IF n > 255 THEN r = <<>> ELSE r = <<0, n>>
Counting == Ready /\ kind = "blocks" =>
  LET Wide(n) == <<0, 0, 0, 0, 0, 0, n \div 256, n % 256>>
      k == (x + y - 1) \div y
  IN  \A j \in MaxOf(0, k - 2)..(k + 2) : JustEnough(Wide(x), Wide(y), Wide(j)) = (j = k)
\* sizes with two bits set (or one)
TwoBits(i, j) == FromBits([k \in 1..64 |-> IF k = 64 - i \/ k = 64 - j THEN 1 ELSE 0])
Sizes == Ready /\ kind = "params" =>
  Acceptable(TwoBits(x, y)) = (x >= 12 /\ y >= 12 /\ ((x < 44 /\ y < 44) \/ (x = 44 /\ y = 44)))

Show(s) == PrintT(<<"CASE", ToJson(s)>>)
Wide16(n) == Fill(14, 0) \o <<n \div 256, n % 256>>
Out == Ready => CASE kind = "params" -> Show([op |-> "params", x |-> TwoBits(x, y)])
                  [] kind = "round" -> Show([op |-> "align", bits |-> 8, x |-> Wide16(x), a |-> y])
                  [] kind = "blocks" -> Show([op |-> "blocks", x |-> Fill(6, 0) \o <<0, x>>, b |-> Fill(7, 0) \o <<y>>])
                  [] OTHER -> x % 16 # 5 \/ Show([op |-> "order",
                       a |-> [v |-> ((x \div 32) * 32) + (y % 8), o |-> <<0, x % 32, y % 32, 0, 0, x, 0, x % 8>>],
                       b |-> [v |-> ((x \div 32) * 32) + (y % 8), o |-> <<0, y % 32, x % 32, 0, 0, y, 0, y % 8>>]])
=============================================================================
