------------------------------- MODULE SqlText ------------------------------
(* The SQL language: tokens, and the one tree every statement has. Trees are *)
(* nodes [k |-> kind, s |-> text, c |-> sequence of nodes]. Texts and names  *)
(* are sequences of code points.                                            *)
EXTENDS Lib, TLC

---------------------------------------------------------------------------
\* words: a string and its code points
Ascii == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Codes == TLCEval([ch \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
           LET i == CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch
           IN  IF i <= 2 THEN 31 + i ELSE IF i <= 59 THEN 32 + i ELSE 33 + i])
Cps(str) == TLCEval([i \in 1..Len(str) |-> Codes[SubSeq(str, i, i)]])

Keywords == {"ALL", "AND", "AS", "ASC", "ATTACH", "BETWEEN", "BY", "CASE", "COLLATE", "CROSS", "CURRENT_DATE",
  "CURRENT_TIME", "CURRENT_TIMESTAMP", "DATE", "DELETE", "DESC", "DESCRIBE", "DISTINCT", "ELSE", "END", "EXPLAIN",
  "EXCEPT", "FILE", "FROM", "FULL", "GROUP", "HAVING", "IN", "INNER", "INSERT", "INTERSECT", "INTO", "IS", "ISNULL",
  "JOIN", "LEFT", "LIMIT", "LIKE", "NATURAL", "NOT", "NOTNULL", "NULL", "OFFSET", "ON", "OR", "ORDER", "OUTER",
  "PLAN", "QUERY", "RIGHT", "SELECT", "SET", "TABLE", "THEN", "TIME", "TIMESTAMP", "UPDATE", "UNION", "USING",
  "VALUES", "WHEN", "WHERE", "WITH"}
KeywordTexts == TLCEval({<<Cps(w), w>> : w \in Keywords})
KeywordText == TLCEval([x \in {y[1] : y \in KeywordTexts} |-> (CHOOSE y \in KeywordTexts : y[1] = x)[2]])

\* the tree of a name keeps its spelling, but names are equal without regard to case
FoldName(x) == SeqMap(UpperC, x)
SameName(x, y) == FoldName(x) = FoldName(y)

---------------------------------------------------------------------------
\* tokens [k, s]: k is the keyword or mark itself, or ID, NUM, STR

Blank(c) == c \in {9, 10, 11, 12, 13, 32}
WordStart(c) == IsAlpha(c) \/ c = 95
WordChar(c) == WordStart(c) \/ IsDigit(c)
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

RECURSIVE WordEnd(_, _), DigitsEnd(_, _), HexEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ WordChar(s[i]) THEN WordEnd(s, i + 1) ELSE i
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i
HexEnd(s, i) == IF i <= Len(s) /\ IsHex(s[i]) THEN HexEnd(s, i + 1) ELSE i

\* an exponent at i: E, an optional sign, digits; i itself if there is none
ExpEnd(s, i) == IF At(s, i) # 69 THEN i
                ELSE LET j == IF At(s, i + 1) \in {43, 45} THEN i + 2 ELSE i + 1
                         e == DigitsEnd(s, j)
                     IN  IF e > j THEN e ELSE i
\* end of the longest numeral at i, which starts with a digit, or with a point and a digit
NumEnd(s, i) ==
  IF s[i] = 46 THEN ExpEnd(s, DigitsEnd(s, i + 1))
  ELSE LET d == DigitsEnd(s, i)
           f == IF At(s, d) = 46 THEN DigitsEnd(s, d + 1) ELSE d
           hex == IF s[i] = 48 /\ At(s, i + 1) = 120 THEN HexEnd(s, i + 2) ELSE i
       IN  IF hex > i + 2 THEN hex ELSE ExpEnd(s, f)

\* end of the string literal that starts at i (the position after the quote), 0 if it is not one
RECURSIVE StrEnd(_, _)
StrEnd(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 39 THEN i + 1
                ELSE IF s[i] < 32 \/ s[i] = 127 THEN 0 ELSE StrEnd(s, i + 1)

Marks1 == [c \in {44, 46, 40, 41, 42, 47, 43, 45, 61, 60, 62} |->
             CASE c = 44 -> "," [] c = 46 -> "." [] c = 40 -> "(" [] c = 41 -> ")" [] c = 42 -> "*" [] c = 47 -> "/"
               [] c = 43 -> "+" [] c = 45 -> "-" [] c = 61 -> "=" [] c = 60 -> "<" [] c = 62 -> ">"]
Marks2 == [c \in {<<33, 61>>, <<60, 61>>, <<62, 61>>, <<124, 124>>} |->
             CASE c = <<33, 61>> -> "!=" [] c = <<60, 61>> -> "<=" [] c = <<62, 61>> -> ">=" [] c = <<124, 124>> -> "||"]

RECURSIVE LexAt(_, _, _)
LexAt(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, t |-> acc]
  ELSE IF Blank(s[i]) THEN LexAt(s, i + 1, acc)
  ELSE IF WordStart(s[i]) THEN
    LET e == WordEnd(s, i)
        w == SubSeq(s, i, e - 1)
        u == FoldName(w)
    IN  LexAt(s, e, Append(acc, IF u \in DOMAIN KeywordText THEN [k |-> KeywordText[u], s |-> <<>>] ELSE [k |-> "ID", s |-> w]))
  ELSE IF IsDigit(s[i]) \/ (s[i] = 46 /\ IsDigit(At(s, i + 1))) THEN
    LET e == NumEnd(s, i) IN LexAt(s, e, Append(acc, [k |-> "NUM", s |-> SubSeq(s, i, e - 1)]))
  ELSE IF s[i] = 39 THEN
    LET e == StrEnd(s, i + 1)
    IN  IF e = 0 THEN [ok |-> FALSE, t |-> acc] ELSE LexAt(s, e, Append(acc, [k |-> "STR", s |-> SubSeq(s, i + 1, e - 2)]))
  ELSE IF <<s[i], At(s, i + 1)>> \in DOMAIN Marks2 THEN LexAt(s, i + 2, Append(acc, [k |-> Marks2[<<s[i], s[i + 1]>>], s |-> <<>>]))
  ELSE IF s[i] \in DOMAIN Marks1 THEN LexAt(s, i + 1, Append(acc, [k |-> Marks1[s[i]], s |-> <<>>]))
  ELSE [ok |-> FALSE, t |-> acc]
Lex(s) == LexAt(s, 1, <<>>)

\* Texts whose reading is not prescribed: white space beyond ASCII, and the two characters beyond ASCII that are a
\* letter of a keyword without regard to case
Odd(c) == c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288, 383, 8490} \/ (c >= 8192 /\ c <= 8202)

---------------------------------------------------------------------------
\* the grammar: each operator reads from token i and returns the next position (0: not of this form) and the tree

N(k, c) == [k |-> k, s |-> <<>>, c |-> c]
Leaf(k, s) == [k |-> k, s |-> s, c |-> <<>>]
None == N("none", <<>>)
Fail == [i |-> 0, t |-> None]
R(i, t) == [i |-> i, t |-> t]
K(t, i) == IF i >= 1 /\ i <= Len(t) THEN t[i].k ELSE "EOF"
NameNode(tok) == Leaf("name", tok.s)
Selects == {"SELECT", "VALUES", "WITH"}

\* r, then the token k
Then(t, r, k) == IF r.i # 0 /\ K(t, r.i) = k THEN R(r.i + 1, r.t) ELSE Fail
\* the tree of r put into a node of kind k
Wrap(r, k) == IF r.i = 0 THEN Fail ELSE R(r.i, N(k, <<r.t>>))

NamesAt(t, i) ==     \* name , name ..
  LET RECURSIVE More(_, _)
      More(j, acc) == IF K(t, j) # "ID" THEN Fail
                      ELSE LET a == Append(acc, NameNode(t[j]))
                           IN  IF K(t, j + 1) = "," THEN More(j + 2, a) ELSE R(j + 1, N("names", a))
  IN  More(i, <<>>)

PathAt(t, i) ==      \* one to three names
  IF K(t, i) # "ID" THEN Fail
  ELSE IF ~(K(t, i + 1) = "." /\ K(t, i + 2) = "ID") THEN R(i + 1, N("names", <<NameNode(t[i])>>))
  ELSE IF ~(K(t, i + 3) = "." /\ K(t, i + 4) = "ID") THEN R(i + 3, N("names", <<NameNode(t[i]), NameNode(t[i + 2])>>))
  ELSE R(i + 5, N("names", <<NameNode(t[i]), NameNode(t[i + 2]), NameNode(t[i + 4])>>))

\* a list of one or more items separated by commas, as node of kind k
ListOf(t, i, k, Item(_, _)) ==
  LET RECURSIVE More(_, _)
      More(j, acc) == LET r == Item(t, j)
                      IN  IF r.i = 0 THEN Fail
                          ELSE IF K(t, r.i) = "," THEN More(r.i + 1, Append(acc, r.t))
                          ELSE R(r.i, N(k, Append(acc, r.t)))
  IN  More(i, <<>>)

\* an item if the token is k (read from the token after it), otherwise nothing
Optional(t, i, k, Item(_, _)) == IF K(t, i) = k THEN Item(t, i + 1) ELSE R(i, None)

\* optional AS and a name
AliasAt(t, i) == IF K(t, i) = "AS" THEN IF K(t, i + 1) = "ID" THEN R(i + 2, NameNode(t[i + 1])) ELSE Fail
                 ELSE IF K(t, i) = "ID" THEN R(i + 1, NameNode(t[i])) ELSE R(i, None)

CompareOps == [k \in {"=", "!=", "<", "<=", ">", ">=", "LIKE"} |->
   CASE k = "=" -> "eq" [] k = "!=" -> "ne" [] k = "<" -> "lt" [] k = "<=" -> "le" [] k = ">" -> "gt" [] k = ">=" -> "ge"
     [] k = "LIKE" -> "like"]
AddOps == [k \in {"+", "-", "||"} |-> CASE k = "+" -> "add" [] k = "-" -> "sub" [] k = "||" -> "concat"]
MulOps == [k \in {"*", "/"} |-> CASE k = "*" -> "mul" [] k = "/" -> "div"]

RECURSIVE ExprAt(_, _), OrRest(_, _), AndAt(_, _), AndRest(_, _), NotAt(_, _), CmpRest(_, _), AddAt(_, _), AddRest(_, _),
          MulAt(_, _), MulRest(_, _), UnaryAt(_, _), PrimaryAt(_, _), InAt(_, _, _), BetweenAt(_, _, _), CaseAt(_, _),
          WhensAt(_, _, _), SelectAt(_, _), CompoundRest(_, _), CoreAt(_, _), CtesAt(_, _), CteAt(_, _),
          TableAt(_, _), JoinRest(_, _), TermAt(_, _), ColumnAt(_, _), OrderAt(_, _), RowAt(_, _)

ExprAt(t, i) == OrRest(t, AndAt(t, i))
OrRest(t, r) == IF r.i # 0 /\ K(t, r.i) = "OR"
                THEN LET q == AndAt(t, r.i + 1) IN IF q.i = 0 THEN Fail ELSE OrRest(t, R(q.i, N("or", <<r.t, q.t>>)))
                ELSE r
AndAt(t, i) == AndRest(t, NotAt(t, i))
AndRest(t, r) == IF r.i # 0 /\ K(t, r.i) = "AND"
                 THEN LET q == NotAt(t, r.i + 1) IN IF q.i = 0 THEN Fail ELSE AndRest(t, R(q.i, N("and", <<r.t, q.t>>)))
                 ELSE r
\* comparisons, or one CASE
Complex(t, i) == IF K(t, i) = "CASE" THEN CaseAt(t, i + 1) ELSE CmpRest(t, AddAt(t, i))
NotAt(t, i) == IF K(t, i) = "NOT" THEN Wrap(Complex(t, i + 1), "not") ELSE Complex(t, i)

IsNull(e) == N("isnull", <<e>>)
Not(e) == N("not", <<e>>)
CmpRest(t, r) ==
  IF r.i = 0 THEN Fail
  ELSE LET k == K(t, r.i) k1 == K(t, r.i + 1) k2 == K(t, r.i + 2) IN
    CASE k \in DOMAIN CompareOps ->
           LET q == AddAt(t, r.i + 1) IN IF q.i = 0 THEN Fail ELSE CmpRest(t, R(q.i, N(CompareOps[k], <<r.t, q.t>>)))
      [] k = "IS" /\ k1 = "NULL" -> CmpRest(t, R(r.i + 2, IsNull(r.t)))
      [] k = "IS" /\ k1 = "NOT" /\ k2 = "NULL" -> CmpRest(t, R(r.i + 3, Not(IsNull(r.t))))
      [] k = "IS" /\ ~(k1 = "NULL" \/ (k1 = "NOT" /\ k2 = "NULL")) -> Fail
      [] k = "ISNULL" -> CmpRest(t, R(r.i + 1, IsNull(r.t)))
      [] k = "NOTNULL" -> CmpRest(t, R(r.i + 1, Not(IsNull(r.t))))
      [] k = "NOT" /\ k1 = "NULL" -> CmpRest(t, R(r.i + 2, Not(IsNull(r.t))))
      [] k = "IN" -> CmpRest(t, InAt(t, r.i + 1, r.t))
      [] k = "NOT" /\ k1 = "IN" -> CmpRest(t, Wrap(InAt(t, r.i + 2, r.t), "not"))
      [] k = "BETWEEN" -> CmpRest(t, BetweenAt(t, r.i + 1, r.t))
      [] k = "NOT" /\ k1 = "BETWEEN" -> CmpRest(t, Wrap(BetweenAt(t, r.i + 2, r.t), "not"))
      [] k = "NOT" /\ k1 \notin {"NULL", "IN", "BETWEEN"} -> Fail
      [] OTHER -> r
InAt(t, i, e) ==
  LET set == IF K(t, i) # "(" THEN Wrap(PathAt(t, i), "set_name")
             ELSE IF K(t, i + 1) = ")" THEN R(i + 2, N("set_list", <<>>))
             ELSE IF K(t, i + 1) \in Selects THEN Then(t, Wrap(SelectAt(t, i + 1), "set_select"), ")")
             ELSE Then(t, ListOf(t, i + 1, "set_list", ExprAt), ")")
  IN  IF set.i = 0 THEN Fail ELSE R(set.i, N("in", <<e, set.t>>))
BetweenAt(t, i, e) ==
  LET lo == Then(t, AddAt(t, i), "AND")
      hi == IF lo.i = 0 THEN Fail ELSE AddAt(t, lo.i)
  IN  IF hi.i = 0 THEN Fail ELSE R(hi.i, N("between", <<e, lo.t, hi.t>>))

AddAt(t, i) == AddRest(t, MulAt(t, i))
AddRest(t, r) == IF r.i # 0 /\ K(t, r.i) \in DOMAIN AddOps
                 THEN LET q == MulAt(t, r.i + 1) IN IF q.i = 0 THEN Fail ELSE AddRest(t, R(q.i, N(AddOps[K(t, r.i)], <<r.t, q.t>>)))
                 ELSE r
MulAt(t, i) == MulRest(t, UnaryAt(t, i))
MulRest(t, r) == IF r.i # 0 /\ K(t, r.i) \in DOMAIN MulOps
                 THEN LET q == UnaryAt(t, r.i + 1) IN IF q.i = 0 THEN Fail ELSE MulRest(t, R(q.i, N(MulOps[K(t, r.i)], <<r.t, q.t>>)))
                 ELSE r
UnaryAt(t, i) == CASE K(t, i) = "+" -> UnaryAt(t, i + 1)
                   [] K(t, i) = "-" -> Wrap(UnaryAt(t, i + 1), "neg")
                   [] OTHER -> PrimaryAt(t, i)
PrimaryAt(t, i) ==
  LET k == K(t, i) IN
  CASE k = "(" /\ K(t, i + 1) \in Selects -> Then(t, Wrap(SelectAt(t, i + 1), "scalar"), ")")
    [] k = "(" /\ K(t, i + 1) \notin Selects ->
         LET r == Then(t, ListOf(t, i + 1, "tuple", ExprAt), ")")
         IN  IF r.i # 0 /\ Len(r.t.c) = 1 THEN R(r.i, r.t.c[1]) ELSE r
    [] k = "NUM" -> R(i + 1, Leaf("num", t[i].s))
    [] k = "STR" -> R(i + 1, Leaf("str", t[i].s))
    [] k = "NULL" -> R(i + 1, N("null", <<>>))
    [] k = "CURRENT_TIME" -> R(i + 1, N("current_time", <<>>))
    [] k = "CURRENT_DATE" -> R(i + 1, N("current_date", <<>>))
    [] k = "CURRENT_TIMESTAMP" -> R(i + 1, N("current_timestamp", <<>>))
    [] k = "DATE" /\ K(t, i + 1) = "STR" -> R(i + 2, Leaf("date", t[i + 1].s))
    [] k = "TIME" /\ K(t, i + 1) = "STR" -> R(i + 2, Leaf("time", t[i + 1].s))
    [] k = "TIMESTAMP" /\ K(t, i + 1) = "STR" -> R(i + 2, Leaf("timestamp", t[i + 1].s))
    [] k = "ID" -> Wrap(PathAt(t, i), "ref")
    [] OTHER -> Fail

CaseAt(t, i) ==
  LET op == IF K(t, i) = "WHEN" THEN R(i, None) ELSE ExprAt(t, i)
      ws == IF op.i = 0 THEN Fail ELSE WhensAt(t, op.i, <<>>)
      el == IF ws.i = 0 THEN Fail ELSE Optional(t, ws.i, "ELSE", ExprAt)
  IN  IF el.i # 0 /\ K(t, el.i) = "END" THEN R(el.i + 1, N("case", <<op.t, ws.t, el.t>>)) ELSE Fail
WhensAt(t, i, acc) ==
  IF K(t, i) # "WHEN" THEN IF acc = <<>> THEN Fail ELSE R(i, N("list", acc))
  ELSE LET g == Then(t, ExprAt(t, i + 1), "THEN")
           b == IF g.i = 0 THEN Fail ELSE ExprAt(t, g.i)
       IN  IF b.i = 0 THEN Fail ELSE WhensAt(t, b.i, Append(acc, N("when", <<g.t, b.t>>)))

---------------------------------------------------------------------------
\* queries

SelectAt(t, i) ==
  LET ct == CtesAt(t, i)
      ex == IF ct.i = 0 THEN Fail ELSE CompoundRest(t, CoreAt(t, ct.i))
      ob == IF ex.i = 0 THEN Fail
            ELSE IF K(t, ex.i) # "ORDER" THEN R(ex.i, N("list", <<>>))
            ELSE IF K(t, ex.i + 1) # "BY" THEN Fail ELSE ListOf(t, ex.i + 2, "list", OrderAt)
      rows == IF ob.i # 0 /\ K(t, ob.i) = "LIMIT" THEN ExprAt(t, ob.i + 1) ELSE Fail
      off == IF rows.i # 0 /\ K(t, rows.i) \in {",", "OFFSET"} THEN ExprAt(t, rows.i + 1) ELSE R(rows.i, None)
  IN  IF ob.i = 0 THEN Fail
      ELSE IF K(t, ob.i) # "LIMIT" THEN R(ob.i, N("select", <<ct.t, ex.t, ob.t, None>>))
      ELSE IF rows.i = 0 \/ off.i = 0 THEN Fail
      ELSE R(off.i, N("select", <<ct.t, ex.t, ob.t, N("limit", <<rows.t, off.t>>)>>))

CtesAt(t, i) == IF K(t, i) = "WITH" THEN ListOf(t, i + 1, "list", CteAt) ELSE R(i, N("list", <<>>))
CteAt(t, i) ==
  LET ns == IF K(t, i + 1) = "(" THEN Then(t, NamesAt(t, i + 2), ")") ELSE R(i + 1, None)
      q == IF ns.i # 0 /\ K(t, ns.i) = "AS" /\ K(t, ns.i + 1) = "(" THEN Then(t, SelectAt(t, ns.i + 2), ")") ELSE Fail
  IN  IF K(t, i) # "ID" \/ q.i = 0 THEN Fail ELSE R(q.i, N("cte", <<NameNode(t[i]), ns.t, q.t>>))

CompoundRest(t, r) ==
  IF r.i = 0 THEN Fail
  ELSE LET k == K(t, r.i)
           all == k = "UNION" /\ K(t, r.i + 1) = "ALL"
           op == CASE all -> "unionall" [] k = "UNION" /\ ~all -> "union" [] k = "INTERSECT" -> "intersect"
                   [] k = "EXCEPT" -> "except" [] OTHER -> ""
           q == CoreAt(t, IF all THEN r.i + 2 ELSE r.i + 1)
       IN  IF op = "" THEN r
           ELSE IF q.i = 0 THEN Fail ELSE CompoundRest(t, R(q.i, N(op, <<r.t, q.t>>)))

RowAt(t, i) == IF K(t, i) = "(" THEN Then(t, ListOf(t, i + 1, "row", ExprAt), ")") ELSE Fail

CoreAt(t, i) ==
  IF K(t, i) = "VALUES" THEN ListOf(t, i + 1, "values", RowAt)
  ELSE IF K(t, i) # "SELECT" THEN Fail
  ELSE
    LET mode == IF K(t, i + 1) = "DISTINCT" THEN "distinct" ELSE "query"
        j == IF K(t, i + 1) \in {"ALL", "DISTINCT"} THEN i + 2 ELSE i + 1
        cs == IF K(t, j) = "*" THEN R(j + 1, N("star", <<>>)) ELSE ListOf(t, j, "cols", ColumnAt)
        fr == IF cs.i = 0 THEN Fail
              ELSE IF K(t, cs.i) = "FROM" THEN ListOf(t, cs.i + 1, "list", TableAt) ELSE R(cs.i, N("list", <<>>))
        wh == IF fr.i = 0 THEN Fail ELSE Optional(t, fr.i, "WHERE", ExprAt)
        gl == IF wh.i # 0 /\ K(t, wh.i) = "GROUP" /\ K(t, wh.i + 1) = "BY" THEN ListOf(t, wh.i + 2, "list", ExprAt) ELSE Fail
        hv == IF gl.i = 0 THEN Fail ELSE Optional(t, gl.i, "HAVING", ExprAt)
    IN  IF wh.i = 0 THEN Fail
        ELSE IF K(t, wh.i) # "GROUP" THEN R(wh.i, N(mode, <<cs.t, fr.t, wh.t, None>>))
        ELSE IF hv.i = 0 THEN Fail
        ELSE R(hv.i, N(mode, <<cs.t, fr.t, wh.t, N("group", <<gl.t, hv.t>>)>>))

ColumnAt(t, i) ==
  IF K(t, i) = "ID" /\ K(t, i + 1) = "." /\ K(t, i + 2) = "*" THEN R(i + 3, N("allfrom", <<NameNode(t[i])>>))
  ELSE LET e == ExprAt(t, i)
           a == IF e.i = 0 THEN Fail ELSE AliasAt(t, e.i)
       IN  IF a.i = 0 THEN Fail ELSE R(a.i, N("col", <<e.t, a.t>>))

OrderAt(t, i) ==
  LET e == ExprAt(t, i)
      c == IF e.i = 0 THEN Fail
           ELSE IF K(t, e.i) # "COLLATE" THEN R(e.i, None)
           ELSE IF K(t, e.i + 1) = "ID" THEN R(e.i + 2, NameNode(t[e.i + 1])) ELSE Fail
  IN  IF c.i = 0 THEN Fail
      ELSE R(IF K(t, c.i) \in {"ASC", "DESC"} THEN c.i + 1 ELSE c.i,
             N(IF K(t, c.i) = "DESC" THEN "desc" ELSE "asc", <<e.t, c.t>>))

\* tables; joins associate to the left
TermAt(t, i) ==
  IF K(t, i) = "(" THEN
    IF K(t, i + 1) \in Selects
    THEN LET s == Then(t, SelectAt(t, i + 1), ")")
             a == IF s.i = 0 THEN Fail ELSE AliasAt(t, s.i)
         IN  IF a.i = 0 THEN Fail ELSE R(a.i, N("sub", <<s.t, a.t>>))
    ELSE Then(t, TableAt(t, i + 1), ")")
  ELSE LET p == PathAt(t, i)
           a == IF p.i = 0 THEN Fail ELSE AliasAt(t, p.i)
       IN  IF a.i = 0 THEN Fail ELSE R(a.i, N("table", <<p.t, a.t>>))

\* the operator of a join up to and with the word JOIN
JoinOp(t, i) ==
  LET nat == K(t, i) = "NATURAL"
      j == IF nat THEN i + 1 ELSE i
      outer == K(t, j) \in {"LEFT", "RIGHT", "FULL"}
      typ == CASE K(t, j) = "LEFT" -> "left" [] K(t, j) = "RIGHT" -> "right" [] K(t, j) = "FULL" -> "full" [] OTHER -> "inner"
      e == IF outer THEN IF K(t, j + 1) = "OUTER" THEN j + 2 ELSE j + 1 ELSE IF K(t, j) = "INNER" THEN j + 1 ELSE j
  IN  IF K(t, i) = "CROSS" THEN IF K(t, i + 1) = "JOIN" THEN R(i + 2, N("cross", <<>>)) ELSE Fail
      ELSE IF K(t, e) = "JOIN" THEN R(e + 1, N(IF nat THEN "natural" ELSE "join", <<N(typ, <<>>)>>)) ELSE Fail

TableAt(t, i) == JoinRest(t, TermAt(t, i))
JoinRest(t, r) ==
  IF r.i = 0 \/ K(t, r.i) \notin {"JOIN", "NATURAL", "CROSS", "LEFT", "RIGHT", "FULL", "INNER"} THEN r
  ELSE LET op == JoinOp(t, r.i)
           q == IF op.i = 0 THEN Fail ELSE TermAt(t, op.i)
           c == IF q.i = 0 THEN Fail
                ELSE IF K(t, q.i) = "ON" THEN Wrap(ExprAt(t, q.i + 1), "on")
                ELSE IF K(t, q.i) = "USING" /\ K(t, q.i + 1) = "(" THEN Then(t, Wrap(NamesAt(t, q.i + 2), "using"), ")")
                ELSE Fail
       IN  IF c.i = 0 THEN Fail ELSE JoinRest(t, R(c.i, N("joined", <<r.t, op.t, q.t, c.t>>)))

---------------------------------------------------------------------------
\* statements

AssignAt(t, i) == LET ns == Then(t, NamesAt(t, i), "=")
                      e == IF ns.i = 0 THEN Fail ELSE ExprAt(t, ns.i)
                  IN  IF e.i = 0 THEN Fail ELSE R(e.i, N("assign", <<ns.t, e.t>>))

InsertStmt(t, i, ct) ==
  LET p == IF K(t, i + 1) = "INTO" THEN PathAt(t, i + 2) ELSE Fail
      cs == IF p.i = 0 THEN Fail ELSE IF K(t, p.i) = "(" THEN Then(t, NamesAt(t, p.i + 1), ")") ELSE R(p.i, None)
      src == IF cs.i = 0 THEN Fail ELSE CoreAt(t, cs.i)
  IN  IF src.i = 0 THEN Fail ELSE R(src.i, N("insert", <<ct, p.t, cs.t, src.t>>))
DeleteStmt(t, i, ct) ==
  LET p == IF K(t, i + 1) = "FROM" THEN PathAt(t, i + 2) ELSE Fail
      w == IF p.i = 0 THEN Fail ELSE Optional(t, p.i, "WHERE", ExprAt)
  IN  IF w.i = 0 THEN Fail ELSE R(w.i, N("delete", <<ct, p.t, w.t>>))
UpdateStmt(t, i, ct) ==
  LET p == Then(t, PathAt(t, i + 1), "SET")
      as == IF p.i = 0 THEN Fail ELSE ListOf(t, p.i, "list", AssignAt)
      w == IF as.i = 0 THEN Fail ELSE Optional(t, as.i, "WHERE", ExprAt)
  IN  IF w.i = 0 THEN Fail ELSE R(w.i, N("update", <<ct, p.t, as.t, w.t>>))

StatementAt(t, i) ==
  LET ct == CtesAt(t, i) IN
  IF ct.i = 0 THEN Fail
  ELSE CASE K(t, ct.i) = "INSERT" -> InsertStmt(t, ct.i, ct.t)
         [] K(t, ct.i) = "DELETE" -> DeleteStmt(t, ct.i, ct.t)
         [] K(t, ct.i) = "UPDATE" -> UpdateStmt(t, ct.i, ct.t)
         [] OTHER -> SelectAt(t, i)

\* one name, or two
ShortPathAt(t, i) == LET p == PathAt(t, i) IN IF p.i # 0 /\ Len(p.t.c) <= 2 THEN p ELSE Fail

SqlAt(t) ==
  CASE K(t, 1) = "EXPLAIN" ->
         Wrap(StatementAt(t, IF K(t, 2) = "QUERY" /\ K(t, 3) = "PLAN" THEN 4 ELSE 2), "explain")
    [] K(t, 1) = "ATTACH" ->
         IF K(t, 2) = "FILE" /\ K(t, 3) = "STR" /\ K(t, 4) = "AS"
         THEN LET p == ShortPathAt(t, 5) IN IF p.i = 0 THEN Fail ELSE R(p.i, [k |-> "attach", s |-> t[3].s, c |-> <<p.t>>])
         ELSE Fail
    [] K(t, 1) = "DESCRIBE" -> Wrap(ShortPathAt(t, 2), "describe")
    [] OTHER -> StatementAt(t, 1)

\* [r |-> "ok", t] | "err" | "any"
OutsideStrings(s) == \* the characters outside string literals
  LET step(acc, c) == IF c = 39 THEN <<1 - acc[1], acc[2]>> ELSE IF acc[1] = 0 THEN <<0, acc[2] \cup {c}>> ELSE acc
  IN  FoldLeft(step, <<0, {}>>, s)[2]
Parse(s) ==
  IF \E c \in OutsideStrings(s) : Odd(c) THEN [r |-> "any", t |-> None]
  ELSE LET l == Lex(s)
           x == SqlAt(l.t)
       IN  IF l.ok /\ x.i # 0 /\ x.i = Len(l.t) + 1 THEN [r |-> "ok", t |-> x.t] ELSE [r |-> "err", t |-> None]
=============================================================================
