------------------------------ MODULE SqlPrint ------------------------------
(* Texts of expression trees: with the parentheses that are needed and no    *)
(* others, or with all of them; several spellings of the same tree.          *)
EXTENDS SqlText

Level(t) == CASE t.k = "or" -> 10 [] t.k = "and" -> 20 [] t.k = "not" -> 30 [] t.k = "case" -> 35
              [] t.k \in {"eq", "ne", "lt", "le", "gt", "ge", "like", "isnull", "in", "between"} -> 40
              [] t.k \in {"add", "sub", "concat"} -> 50 [] t.k \in {"mul", "div"} -> 60 [] t.k = "neg" -> 70
              [] OTHER -> 80

Word == TLCEval([w \in Keywords |-> <<32>> \o Cps(w) \o <<32>>])
Sign(str) == <<32>> \o Cps(str) \o <<32>>
Signs == TLCEval([k \in {"or", "and", "eq", "ne", "lt", "le", "gt", "ge", "like", "add", "sub", "concat", "mul", "div"} |->
  CASE k = "or" -> Word["OR"] [] k = "and" -> Word["AND"] [] k = "eq" -> Sign("=") [] k = "ne" -> Sign("!=")
    [] k = "lt" -> Sign("<") [] k = "le" -> Sign("<=") [] k = "gt" -> Sign(">") [] k = "ge" -> Sign(">=")
    [] k = "like" -> Word["LIKE"] [] k = "add" -> Sign("+") [] k = "sub" -> Sign("-") [] k = "concat" -> Sign("||")
    [] k = "mul" -> Sign("*") [] k = "div" -> Sign("/")])

Par(s) == <<40>> \o s \o <<41>>
Commas(ss) == IF ss = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, b : a \o <<44, 32>> \o b, ss[1], Tail(ss))
Dots(ns) == FoldLeft(LAMBDA a, b : a \o <<46>> \o b, ns[1].s, SeqMap(LAMBDA n : n.s, Tail(ns)))

\* v: 0 minimal parentheses, 1 all; 2 and 3 other spellings of negations, with minimal parentheses
RECURSIVE Show(_, _, _)
Show(t, min, v) ==
  LET X(i, m) == Show(t.c[i], m, v)
      neg == t.k = "not" /\ v >= 2
      in == t.c[1]
      Set(s) == CASE s.k = "set_list" -> Par(Commas(SeqMap(LAMBDA e : Show(e, 10, v), s.c)))
                  [] s.k = "set_name" -> Dots(s.c[1].c)
                  [] s.k = "set_select" -> Par(Cps("SELECT 1"))
      lev == IF neg /\ in.k \in {"isnull", "in", "between"} THEN 40 ELSE Level(t)
      body ==
        CASE t.k \in {"or"} -> X(1, 10) \o Signs[t.k] \o X(2, 20)
          [] t.k = "and" -> X(1, 20) \o Signs[t.k] \o X(2, 30)
          [] neg /\ in.k = "isnull" -> Show(in.c[1], 40, v) \o
                  (IF v = 2 THEN Word["IS"] \o Word["NOT"] \o Word["NULL"] ELSE IF v = 3 THEN Word["NOTNULL"] ELSE Word["NOT"] \o Word["NULL"])
          [] neg /\ in.k = "in" -> Show(in.c[1], 40, v) \o Word["NOT"] \o Word["IN"] \o Set(in.c[2])
          [] neg /\ in.k = "between" -> Show(in.c[1], 40, v) \o Word["NOT"] \o Word["BETWEEN"] \o Show(in.c[2], 50, v) \o
                  Word["AND"] \o Show(in.c[3], 50, v)
          [] t.k = "not" /\ ~(neg /\ in.k \in {"isnull", "in", "between"}) -> Word["NOT"] \o X(1, 35)
          [] t.k \in {"eq", "ne", "lt", "le", "gt", "ge", "like"} -> X(1, 40) \o Signs[t.k] \o X(2, 50)
          [] t.k = "isnull" -> X(1, 40) \o (IF v >= 2 THEN Word["IS"] \o Word["NULL"] ELSE Word["ISNULL"])
          [] t.k = "in" -> X(1, 40) \o Word["IN"] \o Set(t.c[2])
          [] t.k = "between" -> X(1, 40) \o Word["BETWEEN"] \o X(2, 50) \o Word["AND"] \o X(3, 50)
          [] t.k \in {"add", "sub", "concat"} -> X(1, 50) \o Signs[t.k] \o X(2, 60)
          [] t.k \in {"mul", "div"} -> X(1, 60) \o Signs[t.k] \o X(2, 70)
          [] t.k = "neg" -> <<45, 32>> \o X(1, 70)
          [] t.k = "tuple" -> Par(Commas(SeqMap(LAMBDA e : Show(e, 10, v), t.c)))
          [] t.k = "scalar" -> Par(Cps("SELECT 1"))
          [] t.k = "case" -> Word["CASE"] \o (IF t.c[1].k = "none" THEN <<>> ELSE X(1, 10))
                  \o Concat(SeqMap(LAMBDA w : Word["WHEN"] \o Show(w.c[1], 10, v) \o Word["THEN"] \o Show(w.c[2], 10, v), t.c[2].c))
                  \o (IF t.c[3].k = "none" THEN <<>> ELSE Word["ELSE"] \o X(3, 10)) \o Word["END"]
          [] t.k = "ref" -> Dots(t.c[1].c)
          [] t.k = "num" -> t.s
          [] t.k = "str" -> <<39>> \o t.s \o <<39>>
          [] t.k = "null" -> Cps("NULL")
          [] t.k = "current_date" -> Cps("CURRENT_DATE")
          [] t.k = "date" -> Cps("DATE '") \o t.s \o <<39>>
  IN  IF lev < min \/ (v = 1 /\ Level(t) < 80) THEN Par(body) ELSE body
=============================================================================
