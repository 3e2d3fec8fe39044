-------------------------------- MODULE Lib --------------------------------
(* Helper operators shared by all specifications: arithmetic, sequences,   *)
(* text as sequences of Unicode code points, UTF-8, decimal numerals.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b

\* smallest multiple of m that is at least n
AlignUp(n, m) == ((n + m - 1) \div m) * m

Pow2(n) == 2^n

\* number of bits needed to represent n (0 for 0)
RECURSIVE RequiredBits(_)
RequiredBits(n) == IF n = 0 THEN 0 ELSE 1 + RequiredBits(n \div 2)

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq(s, base) == FoldLeft(MaxOf, base, s)
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

Fill(n, x) == [i \in 1..n |-> x]
Last1(s) == s[Len(s)]

RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertIdx(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
ReplaceIdx(s, i, x) == [s EXCEPT ![i] = x]

SeqMap(Op(_), s) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])

IsPrefixSeq(p, s) == /\ Len(p) <= Len(s)
                     /\ \A i \in 1..Len(p) : p[i] = s[i]

\* lexicographic order of integer sequences: -1, 0, 1
CmpInt(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
LexCmp(a, b) ==
  LET m == MinOf(Len(a), Len(b))
      D == {i \in 1..m : a[i] # b[i]}
  IN  IF D = {} THEN CmpInt(Len(a), Len(b))
      ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN CmpInt(a[i], b[i])

---------------------------------------------------------------------------
\* Text

IsScalar(c) == (c >= 0 /\ c < 55296) \/ (c >= 57344 /\ c <= 1114111)

Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
         128 + ((c \div 64) % 64), 128 + (c % 64)>>

Utf8Seq(s) == Concat(SeqMap(Utf8, s))

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsHex(c)   == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c)  == IF IsDigit(c) THEN c - 48 ELSE IF IsUpper(c) THEN c - 55 ELSE c - 87
UpperC(c)  == IF IsLower(c) THEN c - 32 ELSE c
LowerC(c)  == IF IsUpper(c) THEN c + 32 ELSE c
UpperS(s)  == SeqMap(UpperC, s)

\* decode UTF-8; result [ok |-> BOOLEAN, s |-> code points]
RECURSIVE DecodeUtf8From(_, _, _)
DecodeUtf8From(b, i, acc) ==
  IF i > Len(b) THEN [ok |-> TRUE, s |-> acc]
  ELSE
    LET c0 == b[i]
        Cont(k) == i + k <= Len(b) /\ b[i + k] >= 128 /\ b[i + k] < 192
        bad == [ok |-> FALSE, s |-> acc]
    IN  IF c0 < 128 THEN DecodeUtf8From(b, i + 1, Append(acc, c0))
        ELSE IF c0 >= 194 /\ c0 < 224 THEN
          IF Cont(1) THEN DecodeUtf8From(b, i + 2, Append(acc, (c0 - 192) * 64 + (b[i+1] - 128)))
          ELSE bad
        ELSE IF c0 >= 224 /\ c0 < 240 THEN
          IF Cont(1) /\ Cont(2)
          THEN LET v == (c0 - 224) * 4096 + (b[i+1] - 128) * 64 + (b[i+2] - 128)
               IN  IF v >= 2048 /\ IsScalar(v) THEN DecodeUtf8From(b, i + 3, Append(acc, v)) ELSE bad
          ELSE bad
        ELSE IF c0 >= 240 /\ c0 < 245 THEN
          IF Cont(1) /\ Cont(2) /\ Cont(3)
          THEN LET v == (c0 - 240) * 262144 + (b[i+1] - 128) * 4096 + (b[i+2] - 128) * 64 + (b[i+3] - 128)
               IN  IF v >= 65536 /\ v <= 1114111 THEN DecodeUtf8From(b, i + 4, Append(acc, v)) ELSE bad
          ELSE bad
        ELSE bad
DecodeUtf8(b) == DecodeUtf8From(b, 1, <<>>)

---------------------------------------------------------------------------
\* Unsigned decimal numerals as digit sequences (most significant first, values 0..9)

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 0 /\ d[1] = 0 THEN StripZeros(Tail(d)) ELSE d
RECURSIVE StripTrailZeros(_)
StripTrailZeros(d) == IF Len(d) > 0 /\ Last1(d) = 0 THEN StripTrailZeros(Front(d)) ELSE d

\* compare two numerals without leading zeros
DigitsCmp(a, b) == IF Len(a) # Len(b) THEN CmpInt(Len(a), Len(b)) ELSE LexCmp(a, b)

\* multiply a numeral by m (< 1000) and add c
MulAdd(d, m, c) ==
  LET step(acc, x) ==         \* acc: <<carry, digits (least significant first collected at front)>>
        LET t == x * m + acc[1] IN <<t \div 10, <<t % 10>> \o acc[2]>>
      r == FoldRight(LAMBDA x, acc : step(acc, x), d, <<c, <<>>>>)
      RECURSIVE Out(_, _)
      Out(k, ds) == IF k = 0 THEN ds ELSE Out(k \div 10, <<k % 10>> \o ds)
  IN  StripZeros(Out(r[1], r[2]))

\* little-endian bytes to decimal digits
BytesToDigits(b) == FoldLeft(LAMBDA acc, x : MulAdd(acc, 256, x), <<>>, Reverse(b))

\* two's complement negation of little-endian bytes
NegBytes(b) ==
  LET step(acc, x) == LET t == (255 - x) + acc[1] IN <<t \div 256, Append(acc[2], t % 256)>>
  IN  FoldLeft(step, <<1, <<>>>>, b)[2]

DigitText(d) == IF d = <<>> THEN <<48>> ELSE SeqMap(LAMBDA x : x + 48, d)
NatText(n) == LET RECURSIVE D(_) D(k) == IF k = 0 THEN <<>> ELSE Append(D(k \div 10), k % 10) IN DigitText(D(n))
=============================================================================
