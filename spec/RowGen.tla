------------------------------- MODULE RowGen -------------------------------
(* All types of a bounded size with every choice of enum cases, for replay   *)
(* in the real code; TLC also checks on each that the format is sound:       *)
(* every field aligned, all of the value's bits present exactly once.        *)
EXTENDS Row, Json, IOUtils, TLC

LeafNames == {IOEnv.P1, IOEnv.P2, IOEnv.P3, IOEnv.P4}
Leaf(n) == IF n = "string" THEN [k |-> "string"] ELSE IF n = "unit" THEN [k |-> "unit"] ELSE [k |-> "prim", p |-> n]
Leaves == {Leaf(n) : n \in LeafNames}

Label(i) == <<96 + i>>
Mk(k, ts) == IF k = "tuple" THEN [k |-> k, c |-> ts]
             ELSE [k |-> k, f |-> [i \in 1..Len(ts) |-> [l |-> Label(i), t |-> ts[i]]]]
T1 == Leaves \cup {Mk(k, <<a>>) : k \in {"enum"}, a \in Leaves}
             \cup {Mk(k, <<a, b>>) : k \in {"enum", "struct"}, a \in Leaves, b \in Leaves}
             \cup {Mk("enum", <<a, b, [k |-> "unit"], a, b>>) : a \in Leaves, b \in Leaves}

\* the outer type is built one component at a time
VARIABLES kind, comps, done
vars == <<kind, comps, done>>
Width == atoi(IOEnv.WIDTH)

RECURSIVE Values(_)
Values(t) ==        \* one value per choice of cases; leaves are filled in by the driver
  CASE t.k = "unit"   -> {[k |-> "unit"]}
    [] t.k = "prim"   -> {[k |-> "prim", b |-> Fill(PrimSize(t.p), 7)]}
    [] t.k = "string" -> {[k |-> "str", s |-> <<>>], [k |-> "str", s |-> <<65, 66, 67>>]}
    [] t.k = "enum"   -> UNION {{[k |-> "case", i |-> i - 1, v |-> v] : v \in Values(t.f[i].t)} : i \in 1..Len(t.f)}
    [] OTHER -> LET c == Comps(t)
                IN  IF Len(c) = 1 THEN {[k |-> "agg", c |-> <<x>>] : x \in Values(c[1])}
                    ELSE IF Len(c) = 2 THEN {[k |-> "agg", c |-> <<x, y>>] : x \in Values(c[1]), y \in Values(c[2])}
                    ELSE {[k |-> "agg", c |-> <<x, y, z>>] : x \in Values(c[1]), y \in Values(c[2]), z \in Values(c[3])}

Mask8(m) == SumSeq([q \in 1..8 |-> (m \div 2^(q-1)) % 2])
RECURSIVE ValueBits(_, _)
ValueBits(t, v) ==
  CASE t.k = "unit"   -> 0
    [] t.k = "prim"   -> 8 * PrimSize(t.p)
    [] t.k = "string" -> 32 + 8 * Len(Utf8Seq(v.s))
    [] t.k = "enum"   -> TagBits(t) + ValueBits(t.f[v.i + 1].t, v.v)
    [] OTHER          -> SumSeq([i \in 1..Len(v.c) |-> ValueBits(Comps(t)[i], v.c[i])])
DefinedBits(cells) == SumSeq(SeqMap(LAMBDA c : Mask8(c[2]), cells))

Init == kind \in {"struct", "tuple", "enum"} /\ comps = <<>> /\ done = FALSE
Next == \/ /\ ~done /\ Len(comps) < Width
           /\ \E t \in T1 : comps' = Append(comps, t)
           /\ UNCHANGED <<kind, done>>
        \/ /\ ~done /\ comps # <<>>
           /\ done' = TRUE /\ UNCHANGED <<kind, comps>>
           /\ LET t == Mk(kind, comps)
              IN  \A v \in Values(t) : PrintT(<<"CASE", ToJson([t |-> t, v |-> v])>>)
Spec == Init /\ [][Next]_vars

Sound ==
  done => LET t == Mk(kind, comps) a == RowAlign(t)
          IN  \A v \in Values(t) : LET e == Encode(t, v)
                                   IN  /\ Len(e) % a = 0
                                       /\ DefinedBits(e) = ValueBits(t, v)
=============================================================================
