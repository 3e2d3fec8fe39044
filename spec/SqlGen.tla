------------------------------- MODULE SqlGen -------------------------------
(* MODE "tree": every expression of two nested operators, each operator at   *)
(*   each operand of each other, in several spellings; TLC checks that the   *)
(*   grammar reads each spelling as that tree.                               *)
(* MODE "seq": every sequence of at most DEPTH tokens after SELECT a.        *)
(* MODE "edit": every edit of some statements that use every clause.         *)
(* MODE "word": every keyword in several spellings and with a letter added   *)
(*   or removed; TLC checks which of them are names.                         *)
(* For all texts TLC checks that case and spacing of the tokens do not matter.*)
EXTENDS SqlPrint, Json, IOUtils

Mode == IOEnv.MODE
Depth == atoi(IOEnv.DEPTH)

Name(s) == Leaf("name", Cps(s))
Ref(s) == N("ref", <<N("names", <<Name(s)>>)>>)
One == Leaf("num", <<49>>)
SelOne == N("select", <<N("list", <<>>), N("query", <<N("cols", <<N("col", <<One, None>>)>>), N("list", <<>>), None, None>>), N("list", <<>>), None>>)

\* shapes: a kind and the number of operands that may be replaced
Binary == {"or", "and", "eq", "ne", "lt", "le", "gt", "ge", "like", "add", "sub", "concat", "mul", "div"}
Shapes == [k : Binary, m : {2}] \cup [k : {"not", "neg", "isnull", "in_empty", "in_select", "in_name"}, m : {1}]
          \cup [k : {"in_list", "between", "tuple", "case", "switch", "switch_else"}, m : {3}]
Build(k, x, y, z) ==
  CASE k \in Binary -> N(k, <<x, y>>)
    [] k \in {"not", "neg", "isnull"} -> N(k, <<x>>)
    [] k = "in_empty" -> N("in", <<x, N("set_list", <<>>)>>)
    [] k = "in_select" -> N("in", <<x, N("set_select", <<SelOne>>)>>)
    [] k = "in_name" -> N("in", <<x, N("set_name", <<N("names", <<Name("s"), Name("t")>>)>>)>>)
    [] k = "in_list" -> N("in", <<x, N("set_list", <<y, z>>)>>)
    [] k = "between" -> N("between", <<x, y, z>>)
    [] k = "tuple" -> N("tuple", <<x, y, z>>)
    [] k = "case" -> N("case", <<None, N("list", <<N("when", <<x, y>>)>>), z>>)
    [] k = "switch" -> N("case", <<x, N("list", <<N("when", <<y, z>>), N("when", <<One, Ref("d")>>)>>), None>>)
    [] k = "switch_else" -> N("case", <<x, N("list", <<N("when", <<y, One>>)>>), z>>)
Leaves3 == <<Ref("a"), Ref("b"), Leaf("str", Cps("c d"))>>
Simple == {Build(sh.k, Leaves3[1], Leaves3[2], Leaves3[3]) : sh \in Shapes}
Inner == {Build(sh.k, Ref("x"), One, Ref("z")) : sh \in Shapes} \cup {N("scalar", <<SelOne>>), N("null", <<>>), Leaf("date", Cps("1"))}
Trees == Simple \cup
  UNION {{Build(sh.k, IF p = 1 THEN y ELSE Leaves3[1], IF p = 2 THEN y ELSE Leaves3[2], IF p = 3 THEN y ELSE Leaves3[3]) :
          p \in 1..sh.m, y \in Inner} : sh \in Shapes}

Alphabet == <<"a", "1", "(", ")", ",", "*", "-", "=", "AND", "OR", "NOT", "NULL", "IS", "IN", "BETWEEN", "AS", "FROM", ".", "'s'",
              "CASE", "WHEN", "THEN", "END", "WHERE", "UNION", "SELECT", "JOIN", "ON", "GROUP", "BY", "ORDER", "LIMIT", "+", "||",
              "LIKE", "ELSE", "VALUES", "DATE", "USING", "DESC", "ALL", "DISTINCT", "LEFT", "OUTER", "WITH", "HAVING", "OFFSET",
              "COLLATE", "SET", "INTO">>
AlphabetCps == SeqMap(Cps, Alphabet)
KA == atoi(IOEnv.LETTERS)

SeedTexts == <<
  "SELECT a", "SELECT ALL * FROM t", "SELECT DISTINCT t . * , a b , c AS d FROM s . t AS u , v w WHERE a = 1",
  "SELECT a FROM t GROUP BY a , b HAVING c", "SELECT a FROM t WHERE b GROUP BY a ORDER BY a COLLATE nocase DESC , b ASC , c LIMIT 1 OFFSET 2",
  "SELECT a LIMIT 1 , 2", "VALUES ( 1 , 'x' ) , ( NULL , a )", "SELECT a UNION SELECT b UNION ALL VALUES ( 1 ) INTERSECT SELECT c EXCEPT SELECT d",
  "WITH x AS ( SELECT a ) , y ( b , c ) AS ( VALUES ( 1 ) ) SELECT a FROM x", "SELECT a FROM t JOIN u ON a = b LEFT OUTER JOIN v USING ( c , d )",
  "SELECT a FROM t NATURAL FULL JOIN u ON a CROSS JOIN v USING ( c ) RIGHT JOIN w ON b",
  "SELECT a FROM ( SELECT b FROM c ) AS d , ( t JOIN u ON a ) JOIN ( v INNER JOIN w ON b ) ON c", "SELECT ( SELECT a ) , ( a , b ) , ( a )",
  "INSERT INTO s . t ( a , b ) VALUES ( 1 , 2 ) , ( 3 , 4 )", "INSERT INTO t SELECT a FROM u WHERE b", "WITH x AS ( SELECT a ) INSERT INTO t SELECT b FROM x",
  "DELETE FROM t WHERE a = 1", "WITH x AS ( VALUES ( 1 ) ) DELETE FROM a . b . c", "UPDATE t SET a = 1 , b , c = d = e WHERE f",
  "WITH x AS ( SELECT a ) UPDATE s . t SET a = 1", "EXPLAIN SELECT a", "EXPLAIN QUERY PLAN DELETE FROM t", "ATTACH FILE 'a b' AS t", "ATTACH FILE '' AS s . t",
  "DESCRIBE t", "DESCRIBE s . t", "SELECT CASE WHEN a THEN b END , CASE a WHEN b THEN c WHEN d THEN e ELSE f END g",
  "SELECT a IN ( 1 , 2 ) , a NOT IN ( SELECT b ) , a IN s . t , a IN ( )", "SELECT NOT a BETWEEN 1 AND 2 AND b NOT BETWEEN c + 1 AND d * 2 OR e",
  "SELECT a IS NULL , b IS NOT NULL , c ISNULL , d NOTNULL , e NOT NULL , f LIKE 'g'", "SELECT + - a * b / c - d || e",
  "SELECT CURRENT_DATE , CURRENT_TIME , CURRENT_TIMESTAMP , DATE 'a' , TIME 'b' , TIMESTAMP 'c' , NULL , .5E1 , 1.E+2 , 0x1F" >>
Splits(s) == \* tokens of a seed: pieces between blanks outside of strings
  LET step(acc, c) == IF c = 39 THEN <<1 - acc[1], Append(acc[2], c), acc[3]>>
                      ELSE IF c = 32 /\ acc[1] = 0 THEN <<0, <<>>, Append(acc[3], acc[2])>>
                      ELSE <<acc[1], Append(acc[2], c), acc[3]>>
      r == FoldLeft(step, <<0, <<>>, <<>>>>, s)
  IN  Append(r[3], r[2])
Seeds == {Splits(Cps(SeedTexts[i])) : i \in 1..Len(SeedTexts)}

LowerS(s) == SeqMap(LowerC, s)
Mixed(s) == [i \in 1..Len(s) |-> IF i % 2 = 0 THEN LowerC(s[i]) ELSE s[i]]
WordForms(w) == LET x == Cps(w) IN
  {x, LowerS(x), Mixed(x), <<x[1]>> \o LowerS(Tail(x)), LowerS(Front(x)) \o <<Last1(x)>>}
NearForms(w) == LET x == Cps(w) IN
  {x \o <<95>>, <<95>> \o x, LowerS(x) \o <<48>>, x \o x, Front(x), Tail(x), LowerS(x) \o <<120>>, x \o <<88>>, LowerS(Front(x))}

VARIABLES toks, n, t, v
vars == <<toks, n, t, v>>
Spaced(ts) == FoldLeft(LAMBDA a, b : a \o <<32>> \o b, IF ts = <<>> THEN <<>> ELSE ts[1], IF ts = <<>> THEN <<>> ELSE Tail(ts))
SelA == Cps("SELECT a ")
Text == CASE Mode = "tree" -> Cps("SELECT ") \o Show(t, 10, v)
          [] Mode = "seq" -> SelA \o Spaced(toks)
          [] Mode = "edit" -> Spaced(toks)
          [] Mode = "word" -> Spaced(toks)

Init == /\ n = 0
        /\ CASE Mode = "tree" -> t \in Trees /\ v \in 0..4 /\ toks = <<>>
             [] Mode = "seq" -> t = None /\ v = 0 /\ toks = <<>>
             [] Mode = "edit" -> t = None /\ v = 0 /\ toks \in Seeds
             [] Mode = "word" -> t = None /\ v = 0 /\ \E w \in Keywords, p \in {"SELECT ", "DESCRIBE ", "SELECT 1 AS "} :
                                    \E x \in WordForms(w) \cup NearForms(w) : toks = <<Cps(p), x>>
Letters == {AlphabetCps[i] : i \in 1..KA}
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED <<t, v>>
        /\ CASE Mode = "seq" -> \E x \in Letters : toks' = Append(toks, x)
             [] Mode = "edit" ->
                  \/ \E i \in 1..Len(toks) : toks' = RemoveIdx(toks, i)
                  \/ \E i \in 1..(Len(toks) + 1), x \in Letters : toks' = InsertIdx(toks, i, x)
                  \/ \E i \in 1..Len(toks), x \in Letters : toks' = ReplaceIdx(toks, i, x)
                  \/ \E i \in 1..(Len(toks) - 1) : toks' = ReplaceIdx(ReplaceIdx(toks, i, toks[i + 1]), i + 1, toks[i])
             [] OTHER -> FALSE /\ UNCHANGED toks
Spec == Init /\ [][Next]_vars
View == <<toks, t, v>>
Emitted == PrintT(<<"CASE", ToJson([s |-> Text])>>)

\* laws of the specification itself
Reads == Mode = "tree" => LET x == Parse(Text) IN x.r = "ok" /\ x.t.c[2].c[1].c[1].c[1] = t
Spacing == Mode \in {"edit", "tree"} =>
  LET x == TLCEval(Text)
      odd == TLCEval([i \in 1..Len(x) |-> IF x[i] = 32 THEN 9 + (i % 2) ELSE x[i]])
  IN  ~(\E i \in 1..Len(x) : x[i] = 39) => Parse(odd) = Parse(x)
Names == Mode = "word" =>
  LET l == Lex(toks[2]) u == FoldName(toks[2])
  IN  toks[2] # <<>> =>
      /\ l.ok
      /\ (WordStart(toks[2][1]) => Len(l.t) = 1 /\ (l.t[1].k = "ID") = ~(\E w \in Keywords : Cps(w) = u))
=============================================================================
