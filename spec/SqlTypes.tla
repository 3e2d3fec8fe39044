------------------------------ MODULE SqlTypes ------------------------------
(* Types of SQL expressions and queries, resolution of names, and validity   *)
(* of statements, over the trees of SqlText and a catalog                    *)
(*   db = [default, schemata : seq of [n, objects : seq of [n, cols]]]       *)
(* with columns [n, t, nn] (nn: not null).                                   *)
(* An attribute is [n, t, z] (z: may be null). A type of an expression is a  *)
(* scalar, a tuple of types, or no type (an error). A row type is [ok, cols].*)
EXTENDS SqlText

Scalar(t, z) == [k |-> "s", t |-> t, z |-> z, c |-> <<>>]
Tuple(c) == [k |-> "t", t |-> "", z |-> FALSE, c |-> c]
Error == [k |-> "e", t |-> "", z |-> FALSE, c |-> <<>>]
IsS(x) == x.k = "s"
IsE(x) == x.k = "e"
Of(x, t) == x.k = "s" /\ x.t = t

Ordered == {"varchar", "numeric", "date", "time", "timestamp"}

\* two values can be compared for equality; and the comparison may then be null
RECURSIVE Comparable(_, _), MayBeNull(_)
Comparable(x, y) == \/ IsS(x) /\ IsS(y) /\ x.t = y.t
                    \/ /\ x.k = "t" /\ y.k = "t" /\ Len(x.c) = Len(y.c)
                       /\ \A i \in 1..Len(x.c) : Comparable(x.c[i], y.c[i])
MayBeNull(x) == IF x.k = "t" THEN \E i \in 1..Len(x.c) : MayBeNull(x.c[i]) ELSE x.z

BadRow == [ok |-> FALSE, cols |-> <<>>]
Row(cols) == [ok |-> TRUE, cols |-> cols]
NoRels == [ok |-> FALSE, rels |-> <<>>]

---------------------------------------------------------------------------
\* sets: ctx = [db, ctes : seq of [n, cols]], later ones hide earlier ones

Find(name, xs) == {i \in 1..Len(xs) : SameName(xs[i].n, name)}
Largest(S) == CHOOSE i \in S : \A j \in S : j <= i
SchemaTable(ctx, s, name) ==
  LET S == Find(s, ctx.db.schemata)
      objs == IF S = {} THEN <<>> ELSE ctx.db.schemata[Largest(S)].objects
      O == Find(name, objs)
  IN  IF O = {} THEN BadRow
      ELSE Row(SeqMap(LAMBDA c : [n |-> c.n, t |-> c.t, z |-> ~c.nn], objs[Largest(O)].cols))
\* path: sequence of name nodes
TableType(ctx, path) ==
  CASE Len(path) = 1 ->
         LET C == Find(path[1].s, ctx.ctes)
         IN  IF C # {} THEN Row(ctx.ctes[Largest(C)].cols) ELSE SchemaTable(ctx, ctx.db.default, path[1].s)
    [] Len(path) = 2 ->
         IF Find(path[1].s, ctx.ctes) # {} THEN BadRow     \* the name of the schema is hidden
         ELSE SchemaTable(ctx, path[1].s, path[2].s)
    [] OTHER -> BadRow

---------------------------------------------------------------------------
\* scalars: env = [ctx, rels : seq of [named, n, cols], res : seq of attributes that come first]

Flat(rels) == Concat(SeqMap(LAMBDA r : r.cols, rels))
One(attrs, name) ==   \* the one attribute of that name
  LET A == Find(name, attrs)
  IN  IF Cardinality(A) # 1 THEN Error ELSE LET a == attrs[CHOOSE i \in A : TRUE] IN Scalar(a.t, a.z)
RelsNamed(rels, name) == {i \in 1..Len(rels) : rels[i].named /\ SameName(rels[i].n, name)}
RefType(env, path) ==
  CASE Len(path) = 1 -> IF Find(path[1].s, env.res) # {}
                        THEN LET a == env.res[CHOOSE i \in Find(path[1].s, env.res) : \A j \in Find(path[1].s, env.res) : i <= j] IN Scalar(a.t, a.z)
                        ELSE One(Flat(env.rels), path[1].s)
    [] Len(path) = 2 -> LET S == RelsNamed(env.rels, path[1].s)
                        IN  IF S = {} THEN Error ELSE One(env.rels[CHOOSE i \in S : TRUE].cols, path[2].s)
    [] OTHER -> Error
Distinct(rels) == \A i, j \in 1..Len(rels) : i < j /\ rels[i].named /\ rels[j].named => ~SameName(rels[i].n, rels[j].n)
Env(ctx, rels, res) == [ctx |-> ctx, rels |-> rels, res |-> res]

Logical(z) == Scalar("logical", z)

\* result columns: a name already taken gets the smallest number that makes it a new one
RECURSIVE Fresh(_, _, _)
Fresh(used, name, k) == LET x == name \o NatText(k) IN IF Find(x, used) = {} THEN x ELSE Fresh(used, name, k + 1)
AddColumn(cols, name, t, z) ==
  Append(cols, [n |-> IF Find(name, cols) = {} THEN name ELSE Fresh(cols, name, 1), t |-> t, z |-> z])
AddAll(cols, attrs) == FoldLeft(LAMBDA acc, a : AddColumn(acc, a.n, a.t, a.z), cols, attrs)

RECURSIVE TypeOf(_, _), TypesOf(_, _), RowOf(_, _), SetOf(_, _), RelsOf(_, _), WithCtes(_, _), ColumnsOf(_, _, _, _), ValuesOf(_, _)

TypesOf(es, env) == TLCEval([i \in 1..Len(es) |-> TypeOf(es[i], env)])

TypeOf(e, env) ==
  LET x == TLCEval(IF e.c = <<>> \/ e.k \in {"ref", "case", "in", "scalar"} THEN <<>> ELSE TypesOf(e.c, env))
      err == \E i \in 1..Len(x) : IsE(x[i])
      nul == \E i \in 1..Len(x) : MayBeNull(x[i])
      All(t) == \A i \in 1..Len(x) : Of(x[i], t)
      same == \A i \in 1..Len(x) : IsS(x[i]) /\ x[i].t = x[1].t
  IN
  CASE e.k = "num" -> Scalar("numeric", FALSE)
    [] e.k = "str" -> Scalar("varchar", FALSE)
    [] e.k = "null" -> Scalar("generic", TRUE)
    [] e.k \in {"date", "current_date"} -> Scalar("date", FALSE)
    [] e.k \in {"time", "current_time"} -> Scalar("time", FALSE)
    [] e.k \in {"timestamp", "current_timestamp"} -> Scalar("timestamp", FALSE)
    [] e.k = "ref" -> RefType(env, e.c[1].c)
    [] e.k = "tuple" -> IF err THEN Error ELSE Tuple(x)
    [] e.k \in {"neg", "add", "sub", "mul", "div"} -> IF All("numeric") THEN Scalar("numeric", nul) ELSE Error
    [] e.k = "concat" -> IF All("varchar") THEN Scalar("varchar", nul) ELSE Error
    [] e.k \in {"not", "and", "or"} -> IF All("logical") THEN Logical(nul) ELSE Error
    [] e.k = "isnull" -> IF IsS(x[1]) THEN Logical(FALSE) ELSE Error
    [] e.k \in {"eq", "ne"} -> IF Comparable(x[1], x[2]) THEN Logical(nul) ELSE Error
    [] e.k \in {"lt", "le", "gt", "ge", "between"} -> IF same /\ x[1].t \in Ordered THEN Logical(nul) ELSE Error
    [] e.k = "like" -> IF All("varchar") THEN Logical(nul) ELSE Error
    [] e.k = "scalar" -> LET r == RowOf(e.c[1], env.ctx)
                         IN  IF r.ok /\ Len(r.cols) = 1 THEN Scalar(r.cols[1].t, r.cols[1].z) ELSE Error
    [] e.k = "in" ->
         LET a == TypeOf(e.c[1], env)
             set == e.c[2]
             vs == TypesOf(set.c, env)
             r == CASE set.k = "set_select" -> RowOf(set.c[1], env.ctx)
                    [] set.k = "set_name" -> TableType(env.ctx, set.c[1].c)
                    [] set.k = "set_list" ->
                         IF vs = <<>> THEN Row(<<[n |-> <<>>, t |-> a.t, z |-> FALSE]>>)
                         ELSE IF \A i \in 1..Len(vs) : IsS(vs[i]) /\ vs[i].t = vs[1].t
                         THEN Row(<<[n |-> <<>>, t |-> vs[1].t, z |-> \E i \in 1..Len(vs) : vs[i].z]>>)
                         ELSE BadRow
         IN  IF ~(IsS(a) /\ r.ok /\ Len(r.cols) = 1) THEN Error
             ELSE IF r.cols[1].t # a.t THEN Error
             \* nothing is a member of the empty list
             ELSE Logical(IF set.k = "set_list" /\ vs = <<>> THEN FALSE ELSE a.z \/ r.cols[1].z)
    [] e.k = "case" ->
         LET whens == e.c[2].c
             gs == TypesOf(SeqMap(LAMBDA w : w.c[1], whens), env)
             bodies == SeqMap(LAMBDA w : w.c[2], whens) \o (IF e.c[3].k = "none" THEN <<>> ELSE <<e.c[3]>>)
             bs == TypesOf(bodies, env)
             op == IF e.c[1].k = "none" THEN Logical(FALSE) ELSE TypeOf(e.c[1], env)
         IN  IF /\ \A i \in 1..Len(gs) : Comparable(op, gs[i])
                /\ \A i \in 1..Len(bs) : IsS(bs[i]) /\ bs[i].t = bs[1].t
             THEN Scalar(bs[1].t, e.c[3].k = "none" \/ \E i \in 1..Len(bs) : bs[i].z)
             ELSE Error

Predicate(e, env) == Of(TypeOf(e, env), "logical")
OptPredicate(e, env) == e.k = "none" \/ Predicate(e, env)

\* the context with common table expressions: [ok, ctx]
WithCtes(ctes, ctx) ==
  LET step(acc, c) ==
        IF ~acc.ok THEN acc
        ELSE LET r == TLCEval(RowOf(c.c[3], acc.ctx))
                 ns == c.c[2].c
                 at == TLCEval([i \in 1..Len(ns) |-> Find(ns[i].s, r.cols)])
                 cols == IF c.c[2].k = "none" THEN r.cols
                         ELSE [i \in 1..Len(ns) |-> LET S == at[i] a == r.cols[CHOOSE j \in S : \A m \in S : j <= m]
                                                    IN  [n |-> ns[i].s, t |-> a.t, z |-> a.z]]
             IN  IF ~r.ok \/ (\E i \in 1..Len(ns) : at[i] = {}) THEN [ok |-> FALSE, ctx |-> ctx]
                 ELSE [ok |-> TRUE, ctx |-> [acc.ctx EXCEPT !.ctes = Append(@, [n |-> c.c[1].s, cols |-> cols])]]
      twice == \E i, j \in 1..Len(ctes) : i < j /\ SameName(ctes[i].c[1].s, ctes[j].c[1].s)
  IN  IF twice THEN [ok |-> FALSE, ctx |-> ctx] ELSE FoldLeft(step, [ok |-> TRUE, ctx |-> ctx], ctes)

\* the relations that a table expression brings into scope
RelsOf(t, ctx) ==
  CASE t.k = "table" ->
         LET r == TableType(ctx, t.c[1].c)
         IN  IF r.ok THEN [ok |-> TRUE, rels |-> <<[named |-> TRUE, n |-> IF t.c[2].k = "none" THEN Last1(t.c[1].c).s ELSE t.c[2].s, cols |-> r.cols]>>]
             ELSE NoRels
    [] t.k = "sub" ->
         LET r == RowOf(t.c[1], ctx)
         IN  IF r.ok THEN [ok |-> TRUE, rels |-> <<[named |-> t.c[2].k # "none", n |-> t.c[2].s, cols |-> r.cols]>>] ELSE NoRels
    [] t.k = "joined" ->
         LET a == TLCEval(RelsOf(t.c[1], ctx))
             b == TLCEval(RelsOf(t.c[3], ctx))
             all == a.rels \o b.rels
             typ == IF t.c[2].c = <<>> THEN "inner" ELSE t.c[2].c[1].k
             Opt(rels) == SeqMap(LAMBDA r : [r EXCEPT !.cols = SeqMap(LAMBDA c : [c EXCEPT !.z = TRUE], r.cols)], rels)
             fits == IF t.c[4].k = "on" THEN Predicate(t.c[4].c[1], Env(ctx, all, <<>>))
                     ELSE \A i \in 1..Len(t.c[4].c[1].c) :
                            Comparable(One(Flat(a.rels), t.c[4].c[1].c[i].s), One(Flat(b.rels), t.c[4].c[1].c[i].s))
         IN  IF ~a.ok \/ ~b.ok THEN NoRels
             ELSE IF ~Distinct(all) \/ ~fits THEN NoRels
             ELSE [ok |-> TRUE, rels |-> (IF typ \in {"right", "full"} THEN Opt(a.rels) ELSE a.rels) \o
                                         (IF typ \in {"left", "full"} THEN Opt(b.rels) ELSE b.rels)]

\* result columns i.. of a list
ColumnsOf(cs, i, env, acc) ==
  IF i > Len(cs) THEN Row(acc)
  ELSE IF cs[i].k = "allfrom" THEN
    LET S == RelsNamed(env.rels, cs[i].c[1].s)
    IN  IF S = {} THEN BadRow ELSE ColumnsOf(cs, i + 1, env, AddAll(acc, env.rels[CHOOSE j \in S : TRUE].cols))
  ELSE
    LET e == cs[i].c[1]
        x == TypeOf(e, env)
        name == IF cs[i].c[2].k # "none" THEN cs[i].c[2].s ELSE IF e.k = "ref" THEN Last1(e.c[1].c).s ELSE <<99, 111, 108>>
    IN  IF IsS(x) THEN ColumnsOf(cs, i + 1, env, AddColumn(acc, name, x.t, x.z)) ELSE BadRow

\* rows of one length, whose values have one scalar type per position
ValuesOf(rows, ctx) ==
  LET env == Env(ctx, <<>>, <<>>)
      n == Len(rows[1].c)
      x == TLCEval([i \in 1..Len(rows) |-> TypesOf(rows[i].c, env)])
  IN  IF /\ \A i \in 1..Len(rows) : Len(rows[i].c) = n
         /\ \A i \in 1..Len(rows), j \in 1..n : IsS(x[i][j]) /\ x[i][j].t = x[1][j].t
      THEN Row([j \in 1..n |-> [n |-> <<95, 99, 111, 108>> \o NatText(j - 1), t |-> x[1][j].t, z |-> \E i \in 1..Len(rows) : x[i][j].z]])
      ELSE BadRow

\* a set expression: its row type and the relations its columns were computed from
SetOf(x, ctx) ==
  CASE x.k = "values" -> LET r == ValuesOf(x.c, ctx) IN [ok |-> r.ok, cols |-> r.cols, rels |-> <<>>]
    [] x.k \in {"union", "unionall", "intersect", "except"} ->
         LET a == TLCEval(SetOf(x.c[1], ctx)) b == TLCEval(SetOf(x.c[2], ctx))
         IN  IF ~a.ok \/ ~b.ok THEN [ok |-> FALSE, cols |-> <<>>, rels |-> <<>>]
             ELSE IF Len(a.cols) # Len(b.cols) \/ (\E i \in 1..MinOf(Len(a.cols), Len(b.cols)) : a.cols[i].t # b.cols[i].t)
             THEN [ok |-> FALSE, cols |-> <<>>, rels |-> <<>>]
             ELSE [ok |-> TRUE, rels |-> <<>>,
                   cols |-> [i \in 1..Len(a.cols) |-> [n |-> a.cols[i].n, t |-> a.cols[i].t, z |-> a.cols[i].z \/ b.cols[i].z]]]
    [] x.k \in {"query", "distinct"} ->
         LET fs == TLCEval([i \in 1..Len(x.c[2].c) |-> RelsOf(x.c[2].c[i], ctx)])
             rels == TLCEval(Concat(SeqMap(LAMBDA f : f.rels, fs)))
             env == Env(ctx, rels, <<>>)
             g == x.c[4]
             grouped == g.k = "none" \/ /\ \A i \in 1..Len(g.c[1].c) : ~IsE(TypeOf(g.c[1].c[i], env))
                                        /\ OptPredicate(g.c[2], env)
             r == TLCEval(IF x.c[1].k = "star" THEN Row(AddAll(<<>>, Flat(rels))) ELSE ColumnsOf(x.c[1].c, 1, env, <<>>))
         IN  IF (\E i \in 1..Len(fs) : ~fs[i].ok) THEN [ok |-> FALSE, cols |-> <<>>, rels |-> <<>>]
             ELSE IF ~Distinct(rels) \/ ~OptPredicate(x.c[3], env) \/ ~grouped \/ ~r.ok THEN [ok |-> FALSE, cols |-> <<>>, rels |-> <<>>]
             ELSE [ok |-> TRUE, cols |-> r.cols, rels |-> rels]

RowOf(s, ctx) ==
  LET w == TLCEval(WithCtes(s.c[1].c, ctx))
      x == TLCEval(SetOf(s.c[2], w.ctx))
      env == Env(w.ctx, x.rels, x.cols)
      none == Env(w.ctx, <<>>, <<>>)
      Count(e) == LET y == TypeOf(e, none) IN Of(y, "numeric") /\ ~y.z
      lim == s.c[4]
  IN  IF ~w.ok THEN BadRow
      ELSE IF ~x.ok THEN BadRow
      ELSE IF \E i \in 1..Len(s.c[3].c) : ~IsS(TypeOf(s.c[3].c[i].c[1], env)) THEN BadRow
      ELSE IF lim.k # "none" THEN IF Count(lim.c[1]) /\ (lim.c[2].k = "none" \/ Count(lim.c[2])) THEN Row(x.cols) ELSE BadRow
      ELSE Row(x.cols)

---------------------------------------------------------------------------
\* statements

Assignable(v, col) == v.t = col.t /\ (v.z => col.z)

InsertOk(s, ctx) ==
  LET target == TableType(ctx, s.c[2].c)
      w == WithCtes(s.c[1].c, ctx)
      src == TLCEval(SetOf(s.c[4], w.ctx))
      n == Len(src.cols)
      \* the column of the table for each value
      at == TLCEval(IF s.c[3].k = "none" THEN [i \in 1..n |-> IF i <= Len(target.cols) THEN {i} ELSE {}]
                    ELSE [i \in 1..Len(s.c[3].c) |-> Find(s.c[3].c[i].s, target.cols)])
      To(i) == CHOOSE j \in at[i] : TRUE
  IN  IF ~target.ok \/ ~w.ok THEN FALSE
      ELSE IF ~src.ok THEN FALSE
      ELSE /\ Len(at) = n
           /\ s.c[3].k = "none" => n = Len(target.cols)
           /\ \A i \in 1..n : at[i] # {}
           /\ \A i, j \in 1..n : i # j => To(i) # To(j)
           /\ \A i \in 1..n : Assignable(src.cols[i], target.cols[To(i)])
           /\ \A j \in 1..Len(target.cols) : ~target.cols[j].z => \E i \in 1..n : To(i) = j

TargetEnv(path, ctx, w) == LET t == TableType(ctx, path)
                           IN  Env(w.ctx, <<[named |-> TRUE, n |-> Last1(path).s, cols |-> t.cols]>>, <<>>)
UpdateOk(s, ctx) ==
  LET t == TableType(ctx, s.c[2].c)
      w == WithCtes(s.c[1].c, ctx)
      env == TargetEnv(s.c[2].c, ctx, w)
      as == s.c[3].c
      set == Concat(SeqMap(LAMBDA a : a.c[1].c, as))
      Good(a) == LET x == TypeOf(a.c[2], env)
                 IN  /\ IsS(x)
                     /\ \A i \in 1..Len(a.c[1].c) :
                          LET S == Find(a.c[1].c[i].s, t.cols) IN S # {} /\ Assignable(x, t.cols[CHOOSE j \in S : TRUE])
  IN  IF ~t.ok \/ ~w.ok THEN FALSE
      ELSE /\ \A i \in 1..Len(as) : Good(as[i])
           /\ \A i, j \in 1..Len(set) : i < j => ~SameName(set[i].s, set[j].s)
           /\ OptPredicate(s.c[4], env)
DeleteOk(s, ctx) ==
  LET t == TableType(ctx, s.c[2].c)
      w == WithCtes(s.c[1].c, ctx)
  IN  IF ~t.ok \/ ~w.ok THEN FALSE ELSE OptPredicate(s.c[3], TargetEnv(s.c[2].c, ctx, w))

\* validity of a statement; of a query also its columns
Check(s, db) ==
  LET ctx == [db |-> db, ctes |-> <<>>]
      Valid(b) == [ok |-> b, cols |-> <<>>]
  IN  CASE s.k = "select" -> RowOf(s, ctx)
        [] s.k = "insert" -> Valid(InsertOk(s, ctx))
        [] s.k = "update" -> Valid(UpdateOk(s, ctx))
        [] s.k = "delete" -> Valid(DeleteOk(s, ctx))
        [] s.k = "attach" -> Valid(TRUE)
        [] s.k = "describe" -> Valid(TableType(ctx, s.c[1].c).ok)
        [] s.k = "explain" -> Valid(CASE s.c[1].k = "select" -> RowOf(s.c[1], ctx).ok
                                      [] s.c[1].k = "insert" -> InsertOk(s.c[1], ctx)
                                      [] s.c[1].k = "update" -> UpdateOk(s.c[1], ctx)
                                      [] s.c[1].k = "delete" -> DeleteOk(s.c[1], ctx))

\* SELECT * without tables has no column at all: whether that is a query is not prescribed
RECURSIVE HasEmptyStar(_)
HasEmptyStar(t) == \/ t.k \in {"query", "distinct"} /\ t.c[1].k = "star" /\ t.c[2].c = <<>>
                   \/ \E i \in 1..Len(t.c) : HasEmptyStar(t.c[i])
=============================================================================
