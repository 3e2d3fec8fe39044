------------------------------ MODULE TypeText ------------------------------
(* The type language: its grammar (a recogniser that builds the type), its   *)
(* printer, dotted names and paths.                                          *)
EXTENDS Types

Txt(str) == str   \* texts are sequences of code points; the words follow
WStruct == <<115,116,114,117,99,116>>
WEnum == <<101,110,117,109>>
WString == <<115,116,114,105,110,103>>
PrimWords == <<
  [w |-> <<98,111,111,108>>, p |-> "bool"], [w |-> <<99,104,97,114>>, p |-> "char"],
  [w |-> <<117,56>>, p |-> "u8"], [w |-> <<117,49,54>>, p |-> "u16"], [w |-> <<117,51,50>>, p |-> "u32"],
  [w |-> <<117,54,52>>, p |-> "u64"], [w |-> <<117,49,50,56>>, p |-> "u128"],
  [w |-> <<105,56>>, p |-> "i8"], [w |-> <<105,49,54>>, p |-> "i16"], [w |-> <<105,51,50>>, p |-> "i32"],
  [w |-> <<105,54,52>>, p |-> "i64"], [w |-> <<105,49,50,56>>, p |-> "i128"],
  [w |-> <<102,51,50>>, p |-> "f32"], [w |-> <<102,54,52>>, p |-> "f64"]>>
Keywords == {WStruct, WEnum, WString} \cup {PrimWords[i].w : i \in 1..Len(PrimWords)}
PrimOf(w) == LET hit == {i \in 1..Len(PrimWords) : PrimWords[i].w = w}
             IN  IF hit = {} THEN "" ELSE PrimWords[CHOOSE i \in hit : TRUE].p
WordOf(p) == PrimWords[CHOOSE i \in 1..Len(PrimWords) : PrimWords[i].p = p].w

Space(c) == c \in {9, 10, 11, 12, 13, 32}
\* white space beyond ASCII: whether it separates tokens is not prescribed
OddSpace(c) == c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ (c >= 8192 /\ c <= 8202)
IdStart(c) == IsAlpha(c) \/ c = 95
IdChar(c) == IdStart(c) \/ IsDigit(c)
Marks == {40, 41, 44, 58, 123, 125}      \* ( ) , : { }

RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ IdChar(s[i]) THEN WordEnd(s, i + 1) ELSE i

RECURSIVE Lex(_, _, _)
Lex(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, t |-> acc]
  ELSE IF Space(s[i]) THEN Lex(s, i + 1, acc)
  ELSE IF s[i] \in Marks THEN Lex(s, i + 1, Append(acc, [k |-> "m", c |-> s[i], w |-> <<>>]))
  ELSE IF IdStart(s[i]) THEN LET e == WordEnd(s, i)
                             IN  Lex(s, e, Append(acc, [k |-> "w", c |-> 0, w |-> SubSeq(s, i, e - 1)]))
  ELSE [ok |-> FALSE, t |-> acc]

IsM(t, i, c) == i <= Len(t) /\ t[i].k = "m" /\ t[i].c = c
IsW(t, i) == i <= Len(t) /\ t[i].k = "w"
NoType == [i |-> 0, t |-> [k |-> "none"]]

\* type at token i: [i |-> next token or 0, t |-> type]
RECURSIVE TypeAt(_, _), ListAt(_, _, _), MembersAt(_, _, _, _)
TypeAt(t, i) ==
  IF IsM(t, i, 40)
  THEN IF IsM(t, i + 1, 41) THEN [i |-> i + 2, t |-> [k |-> "unit"]] ELSE ListAt(t, i + 1, <<>>)
  ELSE IF ~IsW(t, i) THEN NoType
  ELSE LET w == t[i].w
       IN  IF w = WString THEN [i |-> i + 1, t |-> [k |-> "string"]]
           ELSE IF PrimOf(w) # "" THEN [i |-> i + 1, t |-> [k |-> "prim", p |-> PrimOf(w)]]
           ELSE IF w \in {WStruct, WEnum} /\ IsM(t, i + 1, 123)
                THEN MembersAt(t, i + 2, IF w = WStruct THEN "struct" ELSE "enum", <<>>)
           ELSE NoType
\* tuples: a comma between elements only
ListAt(t, i, acc) ==
  LET r == TypeAt(t, i) IN
  IF r.i = 0 THEN NoType
  ELSE IF IsM(t, r.i, 44) THEN ListAt(t, r.i + 1, Append(acc, r.t))
  ELSE IF IsM(t, r.i, 41) THEN [i |-> r.i + 1, t |-> [k |-> "tuple", c |-> Append(acc, r.t)]]
  ELSE NoType
\* structs and enums: one optional comma at the end, at least one member
MembersAt(t, i, k, acc) ==
  IF acc # <<>> /\ IsM(t, i, 125) THEN [i |-> i + 1, t |-> [k |-> k, f |-> acc]]
  ELSE IF ~(IsW(t, i) /\ t[i].w \notin Keywords /\ IsM(t, i + 1, 58)) THEN NoType
  ELSE LET r == TypeAt(t, i + 2) a == Append(acc, [l |-> t[i].w, t |-> r.t])
       IN  IF r.i = 0 THEN NoType
           ELSE IF IsM(t, r.i, 44) THEN MembersAt(t, r.i + 1, k, a)
           ELSE IF IsM(t, r.i, 125) THEN [i |-> r.i + 1, t |-> [k |-> k, f |-> a]]
           ELSE NoType

\* [r |-> "ok", t] | "err" | "any"
ParseType(s) ==
  IF \E i \in 1..Len(s) : OddSpace(s[i]) THEN [r |-> "any", t |-> [k |-> "none"]]
  ELSE LET l == Lex(s, 1, <<>>)
           r == TypeAt(l.t, 1)
       IN  IF l.ok /\ r.i # 0 /\ r.i = Len(l.t) + 1 THEN [r |-> "ok", t |-> r.t]
           ELSE [r |-> "err", t |-> [k |-> "none"]]

---------------------------------------------------------------------------
\* printer
IsLabel(l) == Len(l) > 0 /\ IdStart(l[1]) /\ (\A i \in 1..Len(l) : IdChar(l[i])) /\ l \notin Keywords
RECURSIVE Printable(_)
Printable(t) ==
  CASE t.k \in {"unit", "prim", "string"} -> TRUE
    [] t.k = "tuple" -> Len(t.c) > 0 /\ \A i \in 1..Len(t.c) : Printable(t.c[i])
    [] OTHER -> Len(t.f) > 0 /\ \A i \in 1..Len(t.f) : IsLabel(t.f[i].l) /\ Printable(t.f[i].t)

Join(ss) == IF ss = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, b : a \o <<44, 32>> \o b, ss[1], Tail(ss))
RECURSIVE Show(_)
Show(t) ==
  CASE t.k = "unit" -> <<40, 41>>
    [] t.k = "prim" -> WordOf(t.p)
    [] t.k = "string" -> WString
    [] t.k = "tuple" -> <<40>> \o Join(SeqMap(Show, t.c)) \o <<41>>
    [] OTHER -> (IF t.k = "struct" THEN WStruct ELSE WEnum) \o <<32, 123>>
                \o Join(SeqMap(LAMBDA f : f.l \o <<58, 32>> \o Show(f.t), t.f)) \o <<125>>

---------------------------------------------------------------------------
\* paths
RECURSIVE SubType(_, _)
SubType(t, p) == IF p = <<>> THEN [ok |-> TRUE, t |-> t]
                 ELSE IF p[1] >= 0 /\ p[1] < Arity(t) THEN SubType(Comps(t)[p[1] + 1], Tail(p))
                 ELSE [ok |-> FALSE, t |-> t]
RECURSIVE AllPaths(_, _)
AllPaths(t, p) == {p} \cup UNION {AllPaths(Comps(t)[i], Append(p, i - 1)) : i \in 1..Arity(t)}

\* parts of a dotted name; "" has one empty part
RECURSIVE SplitDot(_, _, _)
SplitDot(s, cur, acc) == IF s = <<>> THEN Append(acc, cur)
                         ELSE IF s[1] = 46 THEN SplitDot(Tail(s), <<>>, Append(acc, cur))
                         ELSE SplitDot(Tail(s), Append(cur, s[1]), acc)

IsNumeral(s) == s # <<>> /\ (\A i \in 1..Len(s) : IsDigit(s[i])) /\ (s[1] # 48 \/ Len(s) = 1)
NumVal(s) == IF Len(s) > 6 THEN 1000000 ELSE FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, s)
\* other spellings of a tuple position ("01", "+1"): not prescribed
OddNumeral(s) == ~IsNumeral(s) /\ LET u == IF s # <<>> /\ s[1] = 43 THEN Tail(s) ELSE s
                                  IN  u # <<>> /\ \A i \in 1..Len(u) : IsDigit(u[i])

\* [r |-> "ok", p |-> path] | "err" | "any"
RECURSIVE ResolveParts(_, _, _)
ResolveParts(t, ps, acc) ==
  IF ps = <<>> THEN [r |-> "ok", p |-> acc]
  ELSE LET n == ps[1] err == [r |-> "err", p |-> <<>>] IN
    CASE t.k = "tuple" ->
           IF OddNumeral(n) THEN [r |-> "any", p |-> <<>>]
           ELSE IF IsNumeral(n) /\ NumVal(n) < Len(t.c)
           THEN ResolveParts(t.c[NumVal(n) + 1], Tail(ps), Append(acc, NumVal(n)))
           ELSE err
      [] t.k \in {"struct", "enum"} ->
           LET hit == {i \in 1..Len(t.f) : t.f[i].l = n}
           IN  IF hit = {} THEN err
               ELSE LET i == CHOOSE i \in hit : \A j \in hit : i <= j
                    IN  ResolveParts(t.f[i].t, Tail(ps), Append(acc, i - 1))
      [] OTHER -> err
Resolve(t, s) == ResolveParts(t, SplitDot(s, <<>>, <<>>), <<>>)

\* the dotted name of a path
RECURSIVE NameOf(_, _)
NameOf(t, p) == LET part == IF t.k = "tuple" THEN NatText(p[1]) ELSE t.f[p[1] + 1].l
                IN  IF Len(p) = 1 THEN part ELSE part \o <<46>> \o NameOf(Comps(t)[p[1] + 1], Tail(p))

ProperPrefix(a, b) == IsPrefixSeq(a, b) /\ Len(a) < Len(b)
=============================================================================
