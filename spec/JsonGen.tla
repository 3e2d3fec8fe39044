------------------------------- MODULE JsonGen ------------------------------
(* Enumerates texts for the decoder: all short texts over the alphabets of   *)
(* numbers and of string bodies, and every edit (up to DEPTH of them) of the *)
(* token sequence of a document of each kind of type.                        *)
EXTENDS JsonText, Json, IOUtils, TLC

Mode == IOEnv.MODE
Depth == atoi(IOEnv.DEPTH)

U8 == [k |-> "prim", p |-> "u8"]
Unit == [k |-> "unit"]
F(l, t) == [l |-> l, t |-> t]
A == <<97>>  B == <<98>>

NumPieces == <<<<45>>, <<48>>, <<49>>, <<46>>, <<101>>, <<43>>>>
\* \ " u n D834 DD1E 0041 a newline /
StrPieces == <<<<92>>, <<34>>, <<117>>, <<110>>, <<68,56,51,52>>, <<100,100,49,69>>, <<48,48,52,49>>, <<97>>, <<10>>, <<233>>>>

Q(s) == <<34>> \o s \o <<34>>
Tokens == <<<<123>>, <<125>>, <<91>>, <<93>>, <<44>>, <<58>>, Q(A), Q(B), WNull, <<49>>, Q(WKind), Q(WValue), WTrue, <<32>>,
  \* tokens that are broken, and one that is read as a number although it is quoted
  <<45>>, <<49, 46>>, <<110, 117, 108>>, <<34>>, <<34, 92, 113, 34>>, <<34, 92, 117, 100, 56, 48, 48, 34>>, <<48, 49>>, <<33>>, <<233>>, Q(<<55>>)>>

Bases == <<
  [t |-> [k |-> "tuple", c |-> <<U8>>], s |-> <<3, 10, 4>>],
  [t |-> [k |-> "tuple", c |-> <<Unit, U8>>], s |-> <<3, 9, 5, 10, 4>>],
  [t |-> [k |-> "struct", f |-> <<F(A, Unit)>>], s |-> <<1, 7, 6, 9, 2>>],
  [t |-> [k |-> "struct", f |-> <<F(A, U8), F(B, [k |-> "string"])>>], s |-> <<1, 7, 6, 10, 5, 8, 6, 8, 2>>],
  [t |-> [k |-> "enum", f |-> <<F(A, Unit), F(B, U8)>>], s |-> <<1, 11, 6, 8, 5, 12, 6, 10, 2>>],
  [t |-> [k |-> "enum", f |-> <<F(A, Unit)>>], s |-> <<1, 11, 6, 7, 5, 12, 6, 9, 2>>],
  [t |-> [k |-> "prim", p |-> "bool"], s |-> <<13>>],
  [t |-> U8, s |-> <<10>>],
  [t |-> Unit, s |-> <<9>>],
  [t |-> [k |-> "tuple", c |-> <<[k |-> "tuple", c |-> <<U8>>]>>], s |-> <<3, 3, 10, 4, 4>>],
  [t |-> [k |-> "tuple", c |-> <<[k |-> "struct", f |-> <<F(A, U8)>>], U8>>], s |-> <<3, 1, 7, 6, 10, 2, 5, 10, 4>>],
  [t |-> [k |-> "struct", f |-> <<F(A, [k |-> "struct", f |-> <<F(A, U8), F(B, Unit)>>]), F(B, [k |-> "prim", p |-> "bool"])>>],
   s |-> <<1, 7, 6, 1, 8, 6, 9, 5, 7, 6, 10, 2, 5, 8, 6, 13, 2>>],
  [t |-> [k |-> "enum", f |-> <<F(A, [k |-> "tuple", c |-> <<U8, Unit>>]), F(B, [k |-> "enum", f |-> <<F(A, U8), F(B, U8)>>])>>],
   s |-> <<1, 11, 6, 8, 5, 12, 6, 1, 11, 6, 7, 5, 12, 6, 10, 2, 2>>] >>

\* MODE "esc": every character behind a backslash; every character in each place of an escape of four digits; pairs of code
\* units around the limits of the surrogates, the second one escaped, spoilt or missing; every character by itself
Hex(n) == [i \in 1..4 |-> LET d == (n \div (16 ^ (4 - i))) % 16 IN IF d < 10 THEN 48 + d ELSE 55 + d]
U(n) == <<92, 117>> \o Hex(n)
Chars == 0..127 \cup {133, 160, 233, 1632, 1776, 8232, 8233, 65296, 65313, 65345, 65279}
Units == {0, 31, 65, 55295, 55296, 55297, 56319, 56320, 56321, 57343, 57344, 65535}
Esc == {<<92, c>> : c \in Chars} \cup {<<c>> : c \in Chars} \cup {ReplaceIdx(U(65), i, c) : i \in 2..6, c \in Chars}
  \cup {U(a) \o U(b) : a \in Units, b \in Units} \cup {U(a) \o x : a \in Units, x \in {<<>>, <<92>>, <<92, 117>>, <<92, 110>>, <<117>> \o Hex(56320), <<97>>, Hex(56320)}}
  \cup {U(55296) \o ReplaceIdx(U(56320), i, c) : i \in 1..6, c \in Chars}

VARIABLES base, s, n
vars == <<base, s, n>>

Pieces == IF Mode = "num" THEN NumPieces ELSE IF Mode = "str" THEN StrPieces ELSE Tokens
Text == IF Mode = "esc" THEN s ELSE Concat(SeqMap(LAMBDA i : Pieces[i], s))
Emit == PrintT(<<"CASE", ToJson([t |-> IF base = 0 THEN Unit ELSE Bases[base].t, s |-> IF Mode \in {"str", "esc"} THEN Q(Text) ELSE Text])>>)

\* two edits only of the first bases, with the first tokens
K == IF Mode = "doc" /\ Depth > 1 THEN 14 ELSE Len(Pieces)
Init == IF Mode = "doc" THEN base \in 1..(IF Depth > 1 THEN 9 ELSE Len(Bases)) /\ s = Bases[base].s /\ n = 0
        ELSE IF Mode = "esc" THEN base = 0 /\ s \in Esc /\ n = 0
        ELSE base = 0 /\ s = <<>> /\ n = 0

Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED base
        /\ IF Mode = "esc" THEN FALSE /\ UNCHANGED s
           ELSE IF Mode # "doc" THEN \E p \in 1..K : s' = Append(s, p)
           ELSE \/ \E i \in 1..Len(s) : s' = RemoveIdx(s, i)
                \/ \E i \in 1..(Len(s) + 1), p \in 1..K : s' = InsertIdx(s, i, p)
                \/ \E i \in 1..Len(s), p \in 1..K : s' = ReplaceIdx(s, i, p)
                \/ \E i \in 1..(Len(s) - 1) : s' = ReplaceIdx(ReplaceIdx(s, i, s[i + 1]), i + 1, s[i])
                \/ \E i \in 0..(Len(s) - 1) : s' = SubSeq(s, 1, i)
Spec == Init /\ [][Next]_vars
View == <<base, s>>

\* the specification accepts every base, and every decoded document is accepted again in the same way
Emitted == Emit
BaseOk == (Mode = "doc" /\ n = 0) => Decode(Text, Bases[base].t, <<>>).r = "ok"
=============================================================================
