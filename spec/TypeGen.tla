------------------------------- MODULE TypeGen ------------------------------
(* MODE "text": every sequence of at most DEPTH tokens of the type language. *)
(* MODE "edit": every edit (up to DEPTH) of a few type texts.                *)
(* MODE "type": every type of a bounded shape; TLC checks that the printer   *)
(*   and the parser are inverse to each other, that names and paths are in   *)
(*   one-to-one correspondence, and prints type and text for replay.         *)
(* MODE "path": every path of at most DEPTH components over a few numbers;   *)
(*   TLC checks the order laws on all pairs.                                 *)
EXTENDS TypeText, Json, IOUtils, TLC

Mode == IOEnv.MODE
Depth == atoi(IOEnv.DEPTH)

A == <<97>>  B == <<98>>
\* ( ) , : { } a b u8 struct enum string and a space
Pieces == << <<40>>, <<41>>, <<44>>, <<58>>, <<123>>, <<125>>, A, WordOf("u8"), WStruct, WEnum, WString, <<32>>, <<56>> >>
K == Len(Pieces)
Edits == {<<9, 5, 7, 4, 8, 3, 7, 4, 11, 6>>, <<1, 8, 3, 1, 2, 2>>, <<10, 5, 7, 4, 1, 2, 3, 6>>, <<1, 1, 8, 2, 2>>,
          <<9, 5, 7, 4, 9, 5, 7, 4, 8, 6, 6>>}

Leaves == {[k |-> "unit"], [k |-> "string"], [k |-> "prim", p |-> "u8"], [k |-> "prim", p |-> "f64"]}
Mk(k, ts) == IF k = "tuple" THEN [k |-> k, c |-> ts]
             ELSE [k |-> k, f |-> [i \in 1..Len(ts) |-> [l |-> <<96 + i>>, t |-> ts[i]]]]
Ks == {"tuple", "struct", "enum"}
Next1(S, n) == {Mk(k, ts) : k \in Ks, ts \in UNION {[1..m -> S] : m \in 1..n}}
T1 == Leaves \cup Next1(Leaves, 2)
Types2 == LET S == {[k |-> "unit"], Mk("tuple", <<[k |-> "prim", p |-> "u8"]>>)} \cup Next1({[k |-> "string"], [k |-> "prim", p |-> "u8"]}, 1)
          IN  T1 \cup Next1(T1, 1) \cup Next1(S, 3)
Comp == {0, 1, 2, 10}

VARIABLES s, n, t
vars == <<s, n, t>>
Text == Concat(SeqMap(LAMBDA i : Pieces[i], s))
None == [k |-> "none"]
Emit == CASE Mode \in {"text", "edit"} -> PrintT(<<"CASE", ToJson([s |-> Text])>>)
          [] Mode = "type" -> PrintT(<<"CASE", ToJson([t |-> t, s |-> Show(t), ps |-> SetToSeq(AllPaths(t, <<>>))])>>)
          [] Mode = "path" -> PrintT(<<"CASE", ToJson([p |-> s])>>)

Init == /\ n = 0
        /\ CASE Mode = "text" -> s = <<>> /\ t = None
             [] Mode = "edit" -> s \in Edits /\ t = None
             [] Mode = "type" -> s = <<>> /\ t \in Types2
             [] Mode = "path" -> s = <<>> /\ t = None
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED t
        /\ CASE Mode = "text" -> \E p \in 1..K : s' = Append(s, p)
             [] Mode = "edit" ->
                  \/ \E i \in 1..Len(s) : s' = RemoveIdx(s, i)
                  \/ \E i \in 1..(Len(s) + 1), p \in 1..K : s' = InsertIdx(s, i, p)
                  \/ \E i \in 1..Len(s), p \in 1..K : s' = ReplaceIdx(s, i, p)
                  \/ \E i \in 1..(Len(s) - 1) : s' = ReplaceIdx(ReplaceIdx(s, i, s[i + 1]), i + 1, s[i])
             [] Mode = "type" -> FALSE /\ UNCHANGED s
             [] Mode = "path" -> \E c \in Comp : s' = Append(s, c)
Spec == Init /\ [][Next]_vars
View == <<s, t>>

\* laws of the specification itself
RoundTrip == Mode = "type" => Printable(t) /\ ParseType(Show(t)) = [r |-> "ok", t |-> t]
Reprint == (Mode \in {"text", "edit"} /\ ParseType(Text).r = "ok")
           => LET x == ParseType(Text).t IN Printable(x) /\ ParseType(Show(x)).t = x
Names == Mode = "type" =>
           LET P == AllPaths(t, <<>>) \ {<<>>}
           IN  /\ \A p \in P : SubType(t, p).ok /\ Resolve(t, NameOf(t, p)) = [r |-> "ok", p |-> p]
               /\ \A p, q \in P : p # q => NameOf(t, p) # NameOf(t, q)
\* s against every shorter or equal-length path over the same numbers
Small == UNION {[1..m -> Comp] : m \in 0..2}
OrderLaws == Mode = "path" =>
  \A q \in Small : /\ LexCmp(s, q) = -LexCmp(q, s)
                   /\ (LexCmp(s, q) = 0) <=> (s = q)
                   /\ ProperPrefix(q, s) => LexCmp(q, s) = -1
                   /\ \A r \in Small : (LexCmp(s, q) = -1 /\ LexCmp(q, r) = -1) => LexCmp(s, r) = -1
                   \* extensions of a path are contiguous: what lies between q and an extension of q extends q
                   /\ \A r \in Small : (LexCmp(q, r) <= 0 /\ LexCmp(r, s) <= 0 /\ IsPrefixSeq(q, s)) => IsPrefixSeq(q, r)
Emitted == Emit
=============================================================================
