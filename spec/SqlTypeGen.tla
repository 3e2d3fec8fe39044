----------------------------- MODULE SqlTypeGen -----------------------------
(* MODE "op": every operator on operands of every type and nullability.      *)
(* MODE "list", "stmt": lists of every kind and length with one odd item at   *)
(*   every position, or two, in expressions and in statements.               *)
(* MODE "leak": statements of many scopes, in one place of which a name of   *)
(*   any of the scopes is used.                                              *)
(* MODE "scope": every combination of some common tables, tables in FROM,    *)
(*   result columns and further clauses; and of targets, column lists and    *)
(*   sources of INSERT, UPDATE and DELETE.                                   *)
(* TLC checks laws of the specification on each; each is run in the code.    *)
EXTENDS SqlTypes, SqlPrint, Json, IOUtils

Mode == IOEnv.MODE

Types == <<"generic", "varchar", "numeric", "logical", "date", "time", "timestamp", "geometry">>
Col(name, t, nn) == [n |-> Cps(name), t |-> t, nn |-> nn, pk |-> FALSE]
Obj(name, cols) == [n |-> Cps(name), view |-> FALSE, q |-> <<>>, key |-> <<>>, cols |-> cols]
Sch(name, objs) == [n |-> Cps(name), objects |-> objs]

\* ----------------------------------------------------------------- operators
OpCols == [i \in 1..16 |-> [n |-> <<IF i <= 8 THEN 110 ELSE 122, 48 + ((i - 1) % 8)>>, t |-> Types[((i - 1) % 8) + 1], nn |-> i <= 8, pk |-> FALSE]]
OpDb == [default |-> Cps("m"), schemata |-> <<Sch("m", <<Obj("t", OpCols)>>)>>]
Ref(s) == N("ref", <<N("names", <<Leaf("name", s)>>)>>)
ColRefs == {Ref(OpCols[i].n) : i \in 1..16}
Num == Leaf("num", <<49>>)
Pair == N("tuple", <<Ref(OpCols[2].n), Ref(OpCols[11].n)>>)
Pair2 == N("tuple", <<Leaf("str", <<>>), Num>>)
Nested == N("tuple", <<Pair, Ref(OpCols[5].n)>>)
Undefined == Ref(Cps("none"))
Operands == ColRefs \cup {Pair, Pair2, Nested, Undefined, N("null", <<>>), Num, N("neg", <<Leaf("str", <<>>)>>), N("tuple", <<Num, Undefined>>)}
Few == {Ref(OpCols[i].n) : i \in {2, 3, 4, 5, 8, 10, 11, 12}} \cup {Pair, Undefined, N("null", <<>>), Pair2}
Binary == {"or", "and", "eq", "ne", "lt", "le", "gt", "ge", "like", "add", "sub", "concat", "mul", "div"}
Build(k, x, y, z) ==
  CASE k \in Binary -> N(k, <<x, y>>)
    [] k \in {"not", "neg", "isnull"} -> N(k, <<x>>)
    [] k = "in_empty" -> N("in", <<x, N("set_list", <<>>)>>)
    [] k = "in_list" -> N("in", <<x, N("set_list", <<y, z>>)>>)
    [] k = "in_one" -> N("in", <<x, N("set_list", <<y>>)>>)
    [] k = "between" -> N("between", <<x, y, z>>)
    [] k = "tuple" -> N("tuple", <<x, y>>)
    [] k = "case" -> N("case", <<None, N("list", <<N("when", <<x, y>>)>>), z>>)
    [] k = "case2" -> N("case", <<None, N("list", <<N("when", <<Ref(OpCols[4].n), y>>), N("when", <<x, z>>)>>), None>>)
    [] k = "switch" -> N("case", <<x, N("list", <<N("when", <<y, z>>)>>), None>>)
    [] k = "switch2" -> N("case", <<x, N("list", <<N("when", <<x, Num>>), N("when", <<y, z>>)>>), Num>>)
    [] k = "chain" -> N("and", <<N("eq", <<x, y>>), N("isnull", <<z>>)>>)
Unary == {"not", "neg", "isnull", "in_empty"}
Ternary == {"in_list", "between", "case", "case2", "switch", "switch2", "chain"}
OpCtx == [db |-> OpDb, ctes |-> <<>>]
OpEnv(z) == Env(OpCtx, <<[named |-> TRUE, n |-> Cps("t"), cols |-> SeqMap(LAMBDA c : [n |-> c.n, t |-> c.t, z |-> z \/ ~c.nn], OpCols)]>>, <<>>)

\* ----------------------------------------------------------------- scopes
ScDb == [default |-> Cps("m"), schemata |-> <<
  Sch("m", <<Obj("t", <<Col("a", "numeric", TRUE), Col("b", "varchar", FALSE)>>),
             Obj("u", <<Col("a", "numeric", FALSE), Col("c", "date", TRUE)>>), Obj("w", <<Col("w", "logical", TRUE)>>)>>),
  Sch("s", <<Obj("t", <<Col("a", "varchar", TRUE), Col("d", "logical", FALSE)>>)>>)>>]
Withs == {"", "WITH t AS (SELECT c, a b FROM u) ", "WITH x(b) AS (SELECT * FROM t), t AS (SELECT b FROM x) ", "WITH s AS (VALUES (1)) ", "WITH q AS (SELECT 1), q AS (SELECT 2) "}
Refs == {"a", "b", "c", "d", "T.a", "x.a", "u.A", "s.t.a", "*", "t.*", "x.*", "a, a A, a", "a b, b", "t.a, x.a", "1, 'x' col, NULL", "t", "w.w", "DISTINCT x.b, (SELECT c FROM u)",
         "a1, a"}
Froms == {"", "t", "t x", "s.t", "m.T", "t, u", "t JOIN u ON t.a = u.a", "t LEFT JOIN u USING (a)", "t x RIGHT JOIN u USING (a)", "t FULL JOIN s.t x ON x.d", "t x JOIN s.t USING (a)",
          "(SELECT a, b FROM t) x", "(SELECT a, c FROM u)", "t, t", "t, s.t", "t, t x", "w, t", "t NATURAL LEFT JOIN (u x CROSS JOIN w ON w.w) ON w", "none", "(SELECT a, a FROM t) x", "x, u",
          "(VALUES (1, 'a'), (NULL, 'b')) x", "(VALUES (1, 'a'), (2, NULL)) x", "(t x JOIN w ON x.a = 1) RIGHT JOIN u ON x.b = 'q' AND w.w", "m.t.a", "(SELECT a FROM t WHERE b) t"}
Tails == {"", " WHERE a = 1", " WHERE x.a = 'y'", " ORDER BY a", " ORDER BY t.a, b DESC", " GROUP BY a, b HAVING a IS NULL", " WHERE a", " UNION SELECT a, b FROM m.t", " EXCEPT SELECT c FROM u",
          " INTERSECT SELECT d FROM s.t", " LIMIT a", " LIMIT 1 OFFSET 2", " LIMIT NULL", " WHERE a IN u", " WHERE b IN (SELECT b FROM t) ORDER BY (a, b)", " ORDER BY col"}
Targets == {"t", "u", "w", "s.t", "m.t", "none", "s.none", "a.b.c"}
Lists == {"", "(a)", "(b, a)", "(A, B)", "(a, b, a)", "(a, none)", "(b)", "(d, a)", "(w)", "(c)", "(c, a)"}
Sources == {"VALUES (1)", "VALUES (1, 'x')", "VALUES ('x', 1)", "VALUES (NULL, 'x')", "SELECT a, b FROM t", "SELECT b, a FROM t", "SELECT c FROM u", "SELECT a, c FROM u", "SELECT * FROM s.t",
            "SELECT w FROM w", "VALUES (1, 'x'), (2, NULL)", "VALUES (1, 2, 3)", "SELECT d, a FROM s.t", "SELECT a FROM t UNION SELECT a FROM u", "VALUES (a)", "SELECT CURRENT_DATE, 1", "SELECT a = 1 FROM t"}
Sets == {"a = 1", "b = 'x'", "a = a + 1, b = b || t.b", "A = b", "a = NULL", "b = NULL", "a = 1, A = 2", "none = 1", "a, b = 1", "a = (SELECT a FROM u)", "a = u.a", "d = a = 'x'", "w = NOT w", "c = CURRENT_DATE, a = 1",
         "a = (1, 2)", "b, a = 'x'", "a = 'x'", "t.a = 1"}
Wheres == {"", " WHERE a = 1", " WHERE t.b = 'x'", " WHERE w.w", " WHERE none", " WHERE a", " WHERE EXISTS", " WHERE a IN (SELECT a FROM t)", " WHERE s.t.a = 'x'"}
Names == {"t", "m.t", "s.u", "none", "M.W"}

\* ----------------------------------------------------------------- lists
LiDb == [default |-> Cps("m"), schemata |-> <<Sch("m", <<Obj("t", OpCols),
           Obj("v", <<Col("a", "numeric", TRUE), Col("b", "numeric", FALSE), Col("c", "numeric", TRUE), Col("d", "numeric", FALSE), Col("e", "numeric", TRUE)>>)>>)>>]
Digit == <<"1", "2", "3", "4", "5">>
RECURSIVE Join(_, _)
Join(xs, sep) == IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o sep \o Join(Tail(xs), sep)
Each(xs, F(_)) == [i \in 1..Len(xs) |-> F(xs[i])]
Oddities(k) ==
  CASE k \in {"body", "body_else", "switch", "in", "notin", "zin", "add", "columns", "order", "group", "union", "mixed"} ->
         {"z2", "n1", "NULL", "none", "(n2, n2)", "(SELECT z2 FROM t)", "z2 * n2", "(SELECT n2, z2 FROM t ORDER BY n2)", "(SELECT n2 FROM t ORDER BY z2 LIMIT 1)"}
    [] k \in {"guard", "and", "or", "andor"} -> {"z3", "n1", "NULL", "none", "(n3, n3)", "(SELECT n3 FROM t)", "NOT z3"}
    [] k = "tuple" -> {"z2", "n1", "NULL", "(1, 2)", "none"}
    [] k = "concat" -> {"z1", "n2", "NULL", "none", "(SELECT z1 FROM t)"}
    [] k \in {"rows", "row", "limit", "in_values", "insert_rows"} -> {"NULL", "'x'", "(SELECT z2 FROM t)", "(SELECT n2 FROM t)", "none", "(1, 2)", "CASE WHEN 1 = 1 THEN 2 END"}
    [] k = "lengths" -> {"(1)", "(1, 2, 3)", "(1, 'x')"}
    [] k = "from" -> {"t", "t x1", "t x3", "none", "(SELECT 1) x2", "(SELECT 1)"}
    [] k \in {"using", "using_left"} -> {"z1", "none", "t", "N2"}
    [] k = "ctes" -> {"c1 AS (SELECT 1)", "c2 AS (SELECT a FROM c1)", "t AS (SELECT 1)", "c9 AS (SELECT none)", "c3(n2, none) AS (SELECT * FROM t)", "V(n2) AS (SELECT z2, n2 FROM t)"}
    [] k = "set" -> {"b", "NULL", "'x'", "none", "(SELECT a FROM v)", "(SELECT b FROM v)", "a + d", "(a, b)"}
    [] k = "targets" -> {"a", "e", "none", "C", "v"}
    [] k = "insert" -> {"NULL", "'x'", "(SELECT b FROM v)", "(1, 2)", "none"}
    [] k \in {"insert_columns", "insert_select"} -> {"a", "b", "none", "E"}
    [] k = "joins" -> {"LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "CROSS JOIN", "NATURAL JOIN", "NATURAL LEFT JOIN", "NATURAL RIGHT JOIN", "NATURAL FULL OUTER JOIN"}
Plain0(k, i) ==
  CASE k \in {"body", "body_else", "switch", "in", "notin", "zin", "add", "columns", "order", "group", "union", "mixed"} -> "n2"
    [] k \in {"guard", "and", "or", "andor"} -> "n3"
    [] k = "tuple" -> "n2"
    [] k = "concat" -> "n1"
    [] k \in {"rows", "row", "limit", "in_values", "insert", "insert_rows"} -> "1"
    [] k = "lengths" -> "(1, 2)"
    [] k = "from" -> "t x" \o Digit[i]
    [] k \in {"using", "using_left"} -> "n" \o Digit[i]
    [] k = "ctes" -> "c" \o Digit[i] \o " AS (SELECT n2 a, z1 b FROM t)"
    [] k = "set" -> "1"
    [] k \in {"targets", "insert_columns", "insert_select"} -> <<"a", "b", "c", "d", "e">>[i]
    [] k = "joins" -> "JOIN"
Cols5 == <<"a", "b", "c", "d", "e">>
ListText(k, xs) ==
  LET n == Len(xs) IN
  CASE k = "body" -> "SELECT CASE " \o Join(Each(xs, LAMBDA x : "WHEN n3 THEN " \o x), " ") \o " END FROM t"
    [] k = "body_else" -> "SELECT CASE " \o Join(Each(xs, LAMBDA x : "WHEN z3 THEN " \o x), " ") \o " ELSE n2 END FROM t"
    [] k = "mixed" -> "SELECT CASE n2 " \o Join([i \in 1..n |-> IF i % 2 = 1 THEN "WHEN " \o xs[i] ELSE "THEN " \o xs[i]], " ") \o (IF n % 2 = 1 THEN " THEN n2" ELSE "") \o " ELSE n2 END FROM t"
    [] k = "guard" -> "SELECT CASE " \o Join(Each(xs, LAMBDA x : "WHEN " \o x \o " THEN n2"), " ") \o " ELSE n2 END FROM t"
    [] k = "switch" -> "SELECT CASE z2 " \o Join(Each(xs, LAMBDA x : "WHEN " \o x \o " THEN n1"), " ") \o " ELSE n1 END FROM t"
    [] k = "in" -> "SELECT n2 IN (" \o Join(xs, ", ") \o ") FROM t"
    [] k = "notin" -> "SELECT n2 NOT IN (" \o Join(xs, ", ") \o ") FROM t"
    [] k = "zin" -> "SELECT z2 IN (" \o Join(xs, ", ") \o ") FROM t"
    [] k = "add" -> "SELECT " \o Join(xs, " - ") \o " FROM t"
    [] k = "and" -> "SELECT " \o Join(xs, " AND ") \o " FROM t"
    [] k = "or" -> "SELECT " \o Join(xs, " OR ") \o " FROM t"
    [] k = "andor" -> "SELECT NOT " \o Join([i \in 1..n |-> xs[i] \o (IF i = n THEN "" ELSE IF i % 2 = 1 THEN " OR " ELSE " AND ")], "") \o " FROM t"
    [] k = "concat" -> "SELECT " \o Join(xs, " || ") \o " FROM t"
    [] k = "tuple" -> "SELECT (" \o Join(xs, ", ") \o ") = (" \o Join([i \in 1..n |-> "n2"], ", ") \o ") FROM t"
    [] k = "columns" -> "SELECT " \o Join(xs, ", ") \o " FROM t"
    [] k = "order" -> "SELECT z2 FROM t ORDER BY " \o Join(xs, ", ")
    [] k = "group" -> "SELECT z2 FROM t GROUP BY " \o Join(xs, ", ")
    [] k = "union" -> Join([i \in 1..n |-> "SELECT " \o xs[i] \o " FROM t" \o (IF i = n THEN "" ELSE <<" UNION ", " EXCEPT ", " INTERSECT ", " UNION ALL ">>[((i - 1) % 4) + 1])], "")
    [] k = "rows" -> "VALUES " \o Join(Each(xs, LAMBDA x : "('a', " \o x \o ")"), ", ")
    [] k = "row" -> "VALUES (" \o Join(xs, ", ") \o ")"
    [] k = "lengths" -> "VALUES " \o Join(xs, ", ")
    [] k = "limit" -> "SELECT n2 FROM t LIMIT " \o xs[1] \o (IF n = 1 THEN "" ELSE " OFFSET " \o xs[2])
    [] k = "in_values" -> "SELECT n2 IN (VALUES " \o Join(Each(xs, LAMBDA x : "(" \o x \o ")"), ", ") \o ") FROM t"
    [] k = "from" -> "SELECT x1.n2 FROM " \o Join(xs, ", ")
    [] k = "using" -> "SELECT t.n2, y.z2 FROM t JOIN t y USING (" \o Join(xs, ", ") \o ")"
    [] k = "using_left" -> "SELECT t.n2, y.n2 FROM t LEFT JOIN (SELECT n1, n2, n3, n4, n1 AS z1 FROM t) y USING (" \o Join(xs, ", ") \o ")"
    [] k = "ctes" -> "WITH " \o Join(xs, ", ") \o " SELECT * FROM c1"
    [] k = "set" -> "UPDATE v SET " \o Join([i \in 1..n |-> Cols5[i] \o " = " \o xs[i]], ", ")
    [] k = "targets" -> "UPDATE v SET " \o Join([i \in 1..n |-> xs[i] \o " = " \o (IF i % 2 = 1 THEN "1" ELSE "b")], ", ")
    [] k = "insert" -> "INSERT INTO v(" \o Join([i \in 1..n |-> Cols5[i]], ", ") \o ") VALUES (" \o Join(xs, ", ") \o ")"
    [] k = "insert_rows" -> "INSERT INTO v VALUES " \o Join(Each(xs, LAMBDA x : "(1, " \o x \o ", 1, 2, 3)"), ", ")
    [] k = "insert_columns" -> "INSERT INTO v(" \o Join(xs, ", ") \o ") VALUES (" \o Join([i \in 1..n |-> "1"], ", ") \o ")"
    [] k = "insert_select" -> "INSERT INTO v SELECT " \o Join(xs, ", ") \o " FROM v"
    [] k = "joins" -> "SELECT " \o Join([i \in 1..(n + 1) |-> "x" \o (IF i = 1 THEN "0" ELSE Digit[i - 1]) \o ".n2"], ", ") \o " FROM t x0 " \o Join([i \in 1..n |-> xs[i] \o " t x" \o Digit[i] \o " ON x0.n2 = x" \o Digit[i] \o ".n2"], " ")
\* ----------------------------------------------------------------- names out of their scope
\* statements with holes; each hole is filled with every name that is visible somewhere in the statement
LkDb == [default |-> Cps("m"), schemata |-> <<
  Sch("m", <<Obj("t", <<Col("a", "numeric", TRUE), Col("b", "numeric", FALSE)>>), Obj("u", <<Col("a", "numeric", TRUE), Col("c", "numeric", TRUE)>>)>>),
  Sch("s", <<Obj("v", <<Col("d", "numeric", TRUE)>>)>>)>>]
Leaky(k) ==
  CASE k = "query" -> <<
         "WITH w1 AS (SELECT a k1, ", " k9 FROM t x1 WHERE 1 = ", " ORDER BY ", " LIMIT ", "), w2 AS (SELECT k1 k2, ", " k3 FROM w1 x9 GROUP BY ",
         ") SELECT x2.a k4, ", " k5 FROM t x2 JOIN (SELECT c k6, ", " k7 FROM u x3) x4 ON 1 = ", ", (w2 x5 LEFT JOIN u x6 ON 1 = ", ") WHERE x2.b IN (SELECT k1 FROM w1 x7 WHERE 1 = ",
         ") AND 1 = ", " GROUP BY ", " HAVING 1 = ", " ORDER BY ", " LIMIT ", " OFFSET ", "">>
    [] k = "union" -> <<
         "SELECT b k1, ", " FROM t x1 WHERE 1 = ", " EXCEPT SELECT c k2, ", " FROM u x2 WHERE 1 = ", " UNION SELECT d, ", " FROM (WITH w1 AS (SELECT d, 1 k5 FROM s.v) SELECT d, ",
         " k3 FROM w1 x4 WHERE 1 = ", ") x3 GROUP BY 1, ", " ORDER BY ", ", ", " LIMIT ", "">>
    [] k = "insert" -> <<
         "WITH w1 AS (SELECT a k1, ", " k2 FROM u x1) INSERT INTO t (a, b) SELECT ", " k3, c FROM u x2 WHERE 1 = ", " GROUP BY a, ", "">>
    [] k = "update" -> <<
         "WITH w1 AS (SELECT b k1, ", " k2 FROM t x1), w2 AS (SELECT k1 FROM w1 x2 WHERE 1 = ", ") UPDATE t SET b = ", ", a = CASE WHEN 1 = ",
         " THEN 1 ELSE 2 END WHERE a IN (SELECT k1 FROM w2 x3 WHERE 1 = ", ") AND 1 = ", "">>
    [] k = "nested" -> <<
         "WITH w1 AS (SELECT a k1, b k2 FROM t x1), w2 AS (SELECT k1 k3 FROM w1 x2) SELECT ", " k4 FROM (WITH w1 AS (SELECT k3 k2, ", " k5 FROM w2 x3), t AS (SELECT k2 k6 FROM w1 x4) SELECT ",
         " k7, k2 k9 FROM w1 x5 WHERE k2 IN (WITH w2 AS (SELECT k6 FROM t x6), w1 AS (SELECT k6 k1, ", " k2 FROM w2 x7) SELECT ", " FROM w1 x8 WHERE 1 = ", ")) x9 JOIN w1 ON 1 = ",
         " WHERE 1 IN (SELECT 1 FROM t WHERE 1 = ", ")">>
    [] k = "delete" -> <<
         "WITH t AS (SELECT c k1 FROM u x1), w1 AS (SELECT k1, ", " k2 FROM t x2) DELETE FROM t WHERE b IN (SELECT k2 FROM w1 x3 JOIN t x4 ON 1 = ", ") OR a = ", "">>
LeakKinds == {"query", "union", "nested", "insert", "update", "delete"}
Fillings == {"a", "b", "c", "d", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k9", "t.a", "u.c", "t.k1", "v.d", "col", "x2.k4"}
  \cup {"x" \o d \o "." \o c : d \in {"1", "2", "3", "4", "5", "6", "7", "9"}, c \in {"a", "b", "c", "d", "k1", "k2", "k3", "k5", "k6", "k7"}}
  \cup {"(SELECT 1 FROM " \o r \o ")" : r \in {"w1", "w2", "x1", "x2", "x4", "t", "m.t", "m.w1", "s.v", "v", "w1.t", "W1 w2", "w2 w1, w1 w2"}}
  \cup {"(SELECT k1 FROM " \o r \o ")" : r \in {"w1", "t", "m.t", "w2", "(SELECT * FROM t) t"}}
RECURSIVE Filled(_, _)
Filled(ps, fs) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o fs[1] \o Filled(Tail(ps), Tail(fs))
ListKinds == {"body", "body_else", "mixed", "guard", "switch", "in", "notin", "zin", "add", "and", "or", "andor", "concat", "tuple"}
StmtKinds == {"columns", "order", "group", "union", "rows", "row", "lengths", "limit", "in_values", "from", "using", "using_left", "ctes", "set", "targets", "insert", "insert_rows", "insert_columns", "insert_select", "joins"}
Listed == Mode \in {"list", "stmt"}
Leaking == Mode = "leak"
\* the first choice makes the initial states, such that the rest is enumerated in parallel; of the scopes every
\* SHARE-th is taken, those with remainder REST
Share == atoi(IOEnv.SHARE)
Rest == atoi(IOEnv.REST) % Share
Kinds == Unary \cup Binary \cup Ternary \cup {"in_one", ""}
Order(S) == TLCEval(SetToSeq(S))
SWiths == Order(Withs)   SRefs == Order(Refs)   SFroms == Order(Froms)   STails == Order(Tails)
STargets == Order(Targets)   SLists == Order(Lists)   SSources == Order(Sources)   SSets == Order(Sets)   SWheres == Order(Wheres)
Ix(q) == 1..Len(q)
Taken(i, j, k) == (i * 7 + j * 3 + k) % Share = Rest

VARIABLES tree, parts, first
vars == <<tree, parts, first>>
Text == IF Mode = "op" THEN Cps("SELECT ") \o Show(tree, 10, 0) \o Cps(" FROM t") ELSE Cps(parts)
Db == IF Mode = "op" THEN OpDb ELSE IF Listed THEN LiDb ELSE IF Leaking THEN LkDb ELSE ScDb

Init == /\ tree = None /\ parts = ""
        /\ IF Mode = "op" THEN first \in Kinds
           ELSE IF Listed THEN first \in {x \in (IF Mode = "list" THEN ListKinds ELSE StmtKinds) \X (1..5) : x[1] \notin {"limit"} \/ x[2] <= 2}
           ELSE IF Leaking THEN first \in {x \in LeakKinds \X (1..17) : x[2] < Len(Leaky(x[1]))}
           ELSE first \in {<<k, a, b>> : k \in {"select", "insert", "update", "delete", "describe"}, a \in Withs, b \in Froms \cup Targets}
PickOp == \/ first \in Unary /\ \E x \in Operands : tree' = Build(first, x, Num, Num)
          \/ first \in Binary \cup {"in_one"} /\ \E x, y \in Operands : tree' = Build(first, x, y, Num)
          \/ first \in Ternary /\ \E x, y, z \in Few : tree' = Build(first, x, y, z)
          \/ first = "" /\ tree' \in Operands
PickText ==
  LET k == first[1] w == first[2] f == first[3]
      i == TLCEval(CHOOSE j \in Ix(SWiths) : SWiths[j] = w)
  IN  \/ /\ k = "select" /\ f \in Froms
         /\ \E r \in Ix(SRefs), t \in Ix(STails) :
              /\ Taken(i + Len(f), r, t)
              /\ parts' = w \o "SELECT " \o SRefs[r] \o (IF f = "" THEN "" ELSE " FROM ") \o f \o STails[t]
      \/ /\ k = "insert" /\ f \in Targets
         /\ \E c \in Ix(SLists), s \in Ix(SSources) : Taken(i + Len(f), c, s) /\ parts' = w \o "INSERT INTO " \o f \o " " \o SLists[c] \o " " \o SSources[s]
      \/ /\ k = "update" /\ f \in Targets
         /\ \E s \in Ix(SSets), t \in Ix(SWheres) : Taken(i + Len(f), s, t) /\ parts' = w \o "UPDATE " \o f \o " SET " \o SSets[s] \o SWheres[t]
      \/ k = "delete" /\ f \in Targets /\ \E t \in Wheres : parts' = w \o "DELETE FROM " \o f \o t
      \/ k = "describe" /\ w = "" /\ f = "" /\ \E x \in Names : parts' = "DESCRIBE " \o x
PickList ==
  LET k == first[1] n == first[2]
      base == [i \in 1..n |-> Plain0(k, i)]
  IN  \/ parts' = ListText(k, base)
      \/ \E i \in 1..n, o \in Oddities(k) : parts' = ListText(k, [base EXCEPT ![i] = o])
      \/ \E i, j \in 1..n, o, p \in Oddities(k) : i < j /\ parts' = ListText(k, [base EXCEPT ![i] = o, ![j] = p])
PickLeak ==
  LET k == first[1] i == first[2] ps == Leaky(k) base == [j \in 1..(Len(ps) - 1) |-> "1"]
  IN  \E f \in Fillings : parts' = Filled(ps, [base EXCEPT ![i] = f])
Picking == tree = None /\ parts = ""
Next == /\ Picking /\ first' = first
        /\ IF Mode = "op" THEN PickOp /\ UNCHANGED parts ELSE IF Listed THEN PickList /\ UNCHANGED tree ELSE IF Leaking THEN PickLeak /\ UNCHANGED tree ELSE PickText /\ UNCHANGED tree
Spec == Init /\ [][Next]_vars
Emitted == Picking \/ PrintT(<<"CASE", ToJson([db |-> Db, s |-> Text])>>)

\* ----------------------------------------------------------------- laws
RECURSIVE Has(_, _)
Has(t, ks) == t.k \in ks \/ \E i \in 1..Len(t.c) : Has(t.c[i], ks)
RECURSIVE Bad(_)
Bad(t) == t = Undefined \/ \E i \in 1..Len(t.c) : Bad(t.c[i])
Laws == Mode = "op" /\ ~Picking =>
  LET x == TLCEval(TypeOf(tree, OpEnv(FALSE)))
      y == TLCEval(TypeOf(tree, OpEnv(TRUE)))
  IN  /\ Bad(tree) => IsE(x)                              \* an error in a part is an error
      /\ IsE(x) = IsE(y)                                  \* nullability never decides validity
      /\ IsS(x) => IsS(y) /\ x.t = y.t /\ (x.z => y.z)    \* nor the type; and more nullable parts, a more nullable whole
      /\ tree.k \in {"isnull"} /\ IsS(x) => ~x.z
      /\ tree.k \in Binary /\ ~IsE(x) => x.z = (MayBeNull(TypeOf(tree.c[1], OpEnv(FALSE))) \/ MayBeNull(TypeOf(tree.c[2], OpEnv(FALSE))))
      /\ tree.k \in {"eq", "ne", "lt", "le", "gt", "ge", "like", "and", "or", "not", "in", "between", "isnull"} /\ ~IsE(x) => x.t = "logical"
\* a query means the same in other case; as a sub-query; and explained
Upper(s) == FoldName(s)
Prefix(p, s, q) == Cps(p) \o s \o Cps(q)
Meaning(s) == LET p == Parse(s) IN IF p.r # "ok" THEN [ok |-> FALSE, cols |-> <<>>] ELSE Check(p.t, Db)
Plain(r) == SeqMap(LAMBDA c : [n |-> Upper(c.n), t |-> c.t, z |-> c.z], r.cols)
Same == Mode # "op" /\ ~Picking /\ (Listed => Len(parts) % 7 = 0) /\ (Leaking => Len(parts) % 11 = 0) =>
  LET s == Text
      r == TLCEval(Meaning(s))
      u == TLCEval(Meaning(Upper(s)))
      sub == TLCEval(Meaning(Prefix("SELECT * FROM (", s, ") zz")))
      expl == TLCEval(Meaning(Prefix("EXPLAIN ", s, "")))
      q == Parse(s).r = "ok" /\ Parse(s).t.k = "select"
  IN  /\ u.ok = r.ok /\ Plain(u) = Plain(r)
      /\ q => (sub.ok = r.ok /\ Plain(sub) = Plain(r))
      /\ Parse(s).r = "ok" /\ Parse(s).t.k # "describe" => expl.ok = r.ok
=============================================================================
