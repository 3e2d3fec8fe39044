------------------------------ MODULE JsonText ------------------------------
(* JSON texts (RFC 8259 grammar) and what they denote for a type.           *)
(* A text is a sequence of code points.                                      *)
EXTENDS Types

QUOTE == 34  BSLASH == 92  SLASH == 47  MINUS == 45  PLUS == 43  DOT == 46

IsWs(c) == c \in {32, 9, 10, 13}
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

---------------------------------------------------------------------------
\* Tokens: [k |-> "{" etc.], [k |-> "str", s], [k |-> "num", s], [k |-> "true"|"false"|"null"]

Hex4(s, i) == IF i + 3 <= Len(s) /\ \A j \in i..(i + 3) : IsHex(s[j])
              THEN HexVal(s[i]) * 4096 + HexVal(s[i+1]) * 256 + HexVal(s[i+2]) * 16 + HexVal(s[i+3])
              ELSE -1
IsHighSur(c) == c >= 55296 /\ c <= 56319
IsLowSur(c) == c >= 56320 /\ c <= 57343
Simple(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
               [] c \in {QUOTE, BSLASH, SLASH} -> c [] OTHER -> -1

\* i: position after the opening quote; result [i |-> position after the closing quote or 0, s |-> characters]
RECURSIVE LexStr(_, _, _)
LexStr(s, i, acc) ==
  LET c == At(s, i) IN
  IF c = QUOTE THEN [i |-> i + 1, s |-> acc]
  ELSE IF c < 32 THEN [i |-> 0, s |-> acc]                       \* control character or end of text
  ELSE IF c # BSLASH THEN LexStr(s, i + 1, Append(acc, c))
  ELSE LET e == At(s, i + 1) IN
       IF e = 117 THEN
         LET u == Hex4(s, i + 2) IN
         IF u < 0 THEN [i |-> 0, s |-> acc]
         ELSE IF IsHighSur(u) THEN
           LET w == IF At(s, i + 6) = BSLASH /\ At(s, i + 7) = 117 THEN Hex4(s, i + 8) ELSE -1
           IN  IF w >= 0 /\ IsLowSur(w)
               THEN LexStr(s, i + 12, Append(acc, 65536 + (u - 55296) * 1024 + (w - 56320)))
               ELSE [i |-> 0, s |-> acc]
         ELSE IF IsLowSur(u) THEN [i |-> 0, s |-> acc]
         ELSE LexStr(s, i + 6, Append(acc, u))
       ELSE IF e >= 0 /\ Simple(e) >= 0 THEN LexStr(s, i + 2, Append(acc, Simple(e)))
       ELSE [i |-> 0, s |-> acc]

RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i
\* position after the number that starts at i, or 0
NumEnd(s, i) ==
  LET j == IF At(s, i) = MINUS THEN i + 1 ELSE i
      k == IF At(s, j) = 48 THEN j + 1 ELSE DigitsEnd(s, j)
      f == IF At(s, k) = DOT THEN DigitsEnd(s, k + 1) ELSE k
      fok == At(s, k) # DOT \/ f > k + 1
      hasE == At(s, f) \in {69, 101}
      x == IF hasE /\ At(s, f + 1) \in {MINUS, PLUS} THEN f + 2 ELSE f + 1
      e == IF hasE THEN DigitsEnd(s, x) ELSE f
  IN  IF k = j \/ ~fok \/ (hasE /\ e = x) THEN 0 ELSE e

Word(w, s, i) == i + Len(w) - 1 <= Len(s) /\ \A j \in 1..Len(w) : s[i + j - 1] = w[j]
WTrue == <<116, 114, 117, 101>>
WFalse == <<102, 97, 108, 115, 101>>
WNull == <<110, 117, 108, 108>>
Punct == {123, 125, 91, 93, 44, 58}

\* [ok, t |-> tokens]
RECURSIVE LexFrom(_, _, _)
LexFrom(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, t |-> acc]
  ELSE LET c == s[i] err == [ok |-> FALSE, t |-> acc] IN
    IF IsWs(c) THEN LexFrom(s, i + 1, acc)
    ELSE IF c \in Punct THEN LexFrom(s, i + 1, Append(acc, [k |-> "p", c |-> c]))
    ELSE IF c = QUOTE THEN LET r == LexStr(s, i + 1, <<>>)
                           IN  IF r.i = 0 THEN err ELSE LexFrom(s, r.i, Append(acc, [k |-> "str", s |-> r.s]))
    ELSE IF c = MINUS \/ IsDigit(c) THEN LET e == NumEnd(s, i)
                           IN  IF e = 0 THEN err ELSE LexFrom(s, e, Append(acc, [k |-> "num", s |-> SubSeq(s, i, e - 1)]))
    ELSE IF Word(WTrue, s, i) THEN LexFrom(s, i + 4, Append(acc, [k |-> "true"]))
    ELSE IF Word(WFalse, s, i) THEN LexFrom(s, i + 5, Append(acc, [k |-> "false"]))
    ELSE IF Word(WNull, s, i) THEN LexFrom(s, i + 4, Append(acc, [k |-> "null"]))
    ELSE err

---------------------------------------------------------------------------
\* Values: [i |-> next token or 0 on error, v |-> tree]
\* trees: [k |-> "obj", m |-> Seq([n, v])], [k |-> "arr", e |-> Seq], and the scalar tokens

IsP(t, i, c) == i <= Len(t) /\ t[i].k = "p" /\ t[i].c = c
Fail == [i |-> 0, v |-> [k |-> "bad"]]

RECURSIVE ParseVal(_, _), ParseMems(_, _, _), ParseElems(_, _, _)
ParseVal(t, i) ==
  IF i > Len(t) THEN Fail
  ELSE IF t[i].k # "p" THEN [i |-> i + 1, v |-> t[i]]
  ELSE IF t[i].c = 123 THEN IF IsP(t, i + 1, 125) THEN [i |-> i + 2, v |-> [k |-> "obj", m |-> <<>>]]
                            ELSE ParseMems(t, i + 1, <<>>)
  ELSE IF t[i].c = 91 THEN IF IsP(t, i + 1, 93) THEN [i |-> i + 2, v |-> [k |-> "arr", e |-> <<>>]]
                           ELSE ParseElems(t, i + 1, <<>>)
  ELSE Fail
ParseMems(t, i, acc) ==
  IF i <= Len(t) /\ t[i].k = "str" /\ IsP(t, i + 1, 58)
  THEN LET r == ParseVal(t, i + 2) a == Append(acc, [n |-> t[i].s, v |-> r.v])
       IN  IF r.i = 0 THEN Fail
           ELSE IF IsP(t, r.i, 44) THEN ParseMems(t, r.i + 1, a)
           ELSE IF IsP(t, r.i, 125) THEN [i |-> r.i + 1, v |-> [k |-> "obj", m |-> a]]
           ELSE Fail
  ELSE Fail
ParseElems(t, i, acc) ==
  LET r == ParseVal(t, i) a == Append(acc, r.v)
  IN  IF r.i = 0 THEN Fail
      ELSE IF IsP(t, r.i, 44) THEN ParseElems(t, r.i + 1, a)
      ELSE IF IsP(t, r.i, 93) THEN [i |-> r.i + 1, v |-> [k |-> "arr", e |-> a]]
      ELSE Fail

\* the tree of a text: [k |-> "bad"] if it is not a JSON document
Parse(s) == LET l == LexFrom(s, 1, <<>>)
            IN  IF ~l.ok THEN [k |-> "bad"]
                ELSE LET r == ParseVal(l.t, 1)
                     IN  IF r.i = Len(l.t) + 1 THEN r.v ELSE [k |-> "bad"]

---------------------------------------------------------------------------
\* What a tree denotes for a type: [r |-> "ok", v |-> value], "err", or "any" where nothing is prescribed
Ok(v) == [r |-> "ok", v |-> v]
Err == [r |-> "err", v |-> [k |-> "none"]]
Gray == [r |-> "any", v |-> [k |-> "none"]]

\* decimal digits (0..9, most significant first) to n little-endian bytes
DigitsToBytes(d, n) ==
  LET Mul(acc, x) ==   \* acc: <<overflow, bytes>>
        LET Step(a, b) == LET q == b * 10 + a[1] IN <<q \div 256, Append(a[2], q % 256)>>
            r == FoldLeft(Step, <<x, <<>>>>, acc[2])
        IN  <<acc[1] \/ r[1] > 0, r[2]>>
      r == FoldLeft(Mul, <<FALSE, Fill(n, 0)>>, d)
  IN  [over |-> r[1], b |-> r[2]]

IsIntLit(s) == LET j == IF At(s, 1) = MINUS THEN 2 ELSE 1
               IN  j <= Len(s) /\ \A k \in j..Len(s) : IsDigit(s[k])
CanonInt(s) == LET j == IF At(s, 1) = MINUS THEN 2 ELSE 1 IN At(s, j) # 48 \/ (Len(s) = 1)

DenInt(s, p) ==      \* s: an integer literal
  LET neg == s[1] = MINUS
      d == SeqMap(LAMBDA c : c - 48, IF neg THEN Tail(s) ELSE s)
      r == DigitsToBytes(d, PrimSize(p))
      top == Last1(r.b)
      zero == \A i \in 1..Len(r.b) : r.b[i] = 0
      minmag == top = 128 /\ \A i \in 1..(Len(r.b) - 1) : r.b[i] = 0
      V(b) == Ok([k |-> "prim", b |-> b])
  IN  IF r.over THEN Err
      ELSE IF p \in {"u8", "u16", "u32", "u64", "u128"}
      THEN IF neg THEN IF zero THEN Gray ELSE Err ELSE V(r.b)
      ELSE IF neg THEN IF top < 128 \/ minmag THEN V(NegBytes(r.b)) ELSE Err
      ELSE IF top < 128 THEN V(r.b) ELSE Err

\* floats: fl is a table of literals, their exactly rounded bits (trusted arithmetic) and whether those are finite
DenFloat(s, p, fl) ==
  LET hit == {i \in 1..Len(fl) : fl[i].p = p /\ fl[i].s = s}
  IN  IF hit = {} THEN Gray
      ELSE LET f == fl[CHOOSE i \in hit : TRUE]
           IN  IF f.fin THEN Ok([k |-> "prim", b |-> f.b]) ELSE Err

IsNumLit(s) == Len(s) > 0 /\ NumEnd(s, 1) = Len(s) + 1
\* could a quoted text be some number in a form that JSON does not know (not prescribed)?
NumLike(s) == /\ Len(s) > 0
              /\ \/ \A i \in 1..Len(s) : IsDigit(s[i]) \/ s[i] \in {MINUS, PLUS, DOT, 69, 101}
                 \/ Len(s) <= 9 /\ \E w \in {<<73,78,70>>, <<78,65,78>>, <<73,78,70,73,78,73,84,89>>} :
                                      LET u == UpperS(IF s[1] \in {MINUS, PLUS} THEN Tail(s) ELSE s) IN u = w

DenNum(x, p, fl, strict) ==
  LET int == p \notin {"f32", "f64"} IN
  IF x.k = "num" THEN IF int THEN IF IsIntLit(x.s) THEN DenInt(x.s, p) ELSE Err
                      ELSE DenFloat(x.s, p, fl)
  ELSE IF x.k = "str" /\ ~strict THEN
    IF ~NumLike(x.s) THEN Err
    ELSE IF int THEN IF IsIntLit(x.s) /\ CanonInt(x.s) THEN DenInt(x.s, p)
                     ELSE IF \E i \in 1..Len(x.s) : x.s[i] \in {DOT, 69, 101} THEN Err
                     ELSE Gray
    ELSE IF IsNumLit(x.s) THEN DenFloat(x.s, p, fl) ELSE Gray
  ELSE Err

WKind == <<107, 105, 110, 100>>
WValue == <<118, 97, 108, 117, 101>>

\* strict: the form the encoder uses (numbers as numbers, members in declaration order)
RECURSIVE Denotes(_, _, _, _)
All(rs, K(_)) == IF \E i \in 1..Len(rs) : rs[i].r = "err" THEN Err
                 ELSE IF \E i \in 1..Len(rs) : rs[i].r = "any" THEN Gray
                 ELSE Ok(K(SeqMap(LAMBDA r : r.v, rs)))
Denotes(x, t, fl, strict) ==
  CASE t.k = "unit" -> IF x.k = "null" THEN Ok([k |-> "unit"]) ELSE Err
    [] t.k = "string" -> IF x.k = "str" THEN Ok([k |-> "str", s |-> x.s]) ELSE Err
    [] t.k = "prim" /\ t.p = "bool" -> IF x.k = "true" THEN Ok([k |-> "prim", b |-> <<1>>])
                                       ELSE IF x.k = "false" THEN Ok([k |-> "prim", b |-> <<0>>]) ELSE Err
    [] t.k = "prim" /\ t.p = "char" -> IF x.k = "str" /\ Len(x.s) = 1
                                       THEN Ok([k |-> "prim", b |-> <<x.s[1] % 256, (x.s[1] \div 256) % 256, x.s[1] \div 65536, 0>>])
                                       ELSE Err
    [] t.k = "prim" /\ t.p \notin {"bool", "char"} -> DenNum(x, t.p, fl, strict)
    [] t.k = "tuple" -> IF x.k = "arr" /\ Len(x.e) = Len(t.c)
                        THEN All([i \in 1..Len(t.c) |-> Denotes(x.e[i], t.c[i], fl, strict)], LAMBDA c : [k |-> "agg", c |-> c])
                        ELSE Err
    [] t.k = "struct" ->
         IF x.k # "obj" \/ Len(x.m) # Len(t.f) THEN Err
         ELSE LET pos(i) == {j \in 1..Len(x.m) : x.m[j].n = t.f[i].l}
              IN  IF \E i \in 1..Len(t.f) : Cardinality(pos(i)) # 1 \/ (strict /\ i \notin pos(i)) THEN Err
                  ELSE All([i \in 1..Len(t.f) |-> Denotes(x.m[CHOOSE j \in pos(i) : TRUE].v, t.f[i].t, fl, strict)],
                           LAMBDA c : [k |-> "agg", c |-> c])
    [] t.k = "enum" ->
         IF x.k # "obj" THEN Err
         ELSE IF Len(x.m) # 2 \/ x.m[1].n # WKind \/ x.m[2].n # WValue \/ x.m[1].v.k # "str" THEN Err
         ELSE LET hit == {j \in 1..Len(t.f) : t.f[j].l = x.m[1].v.s}
              IN  IF hit = {} THEN Err
                  ELSE LET j == CHOOSE j \in hit : TRUE
                           r == Denotes(x.m[2].v, t.f[j].t, fl, strict)
                       IN  IF r.r # "ok" THEN r ELSE Ok([k |-> "case", i |-> j - 1, v |-> r.v])

Decode(s, t, fl) == LET x == Parse(s) IN IF x.k = "bad" THEN Err ELSE Denotes(x, t, fl, FALSE)

---------------------------------------------------------------------------
\* paths that hold something in a value of a type
RECURSIVE Entries(_, _, _)
Entries(t, v, path) ==
  CASE t.k = "unit" -> {}
    [] t.k \in {"prim", "string"} -> {path}
    [] t.k = "enum" -> {path} \cup Entries(t.f[v.i + 1].t, v.v, Append(path, v.i))
    [] OTHER -> UNION {Entries(Comps(t)[i], v.c[i], Append(path, i - 1)) : i \in 1..Len(v.c)}

\* can the value be written at all
RECURSIVE Finite(_, _)
Finite(t, v) ==
  CASE t.k = "prim" -> CASE t.p = "f32" -> ~(v.b[4] % 128 = 127 /\ v.b[3] >= 128)
                         [] t.p = "f64" -> ~(v.b[8] % 128 = 127 /\ v.b[7] >= 240)
                         [] OTHER -> TRUE
    [] t.k \in {"unit", "string"} -> TRUE
    [] t.k = "enum" -> Finite(t.f[v.i + 1].t, v.v)
    [] OTHER -> \A i \in 1..Len(v.c) : Finite(Comps(t)[i], v.c[i])
=============================================================================
