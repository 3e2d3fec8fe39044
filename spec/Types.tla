------------------------------- MODULE Types --------------------------------
(* Types and values of the type language, as they appear in traces.         *)
(*  type : [k |-> "unit"] | [k |-> "prim", p] | [k |-> "string"]            *)
(*       | [k |-> "tuple", c : Seq(type)]                                    *)
(*       | [k |-> "struct" or "enum", f : Seq([l : text, t : type])]         *)
(*  value: [k |-> "unit"] | [k |-> "prim", b : little-endian bytes]          *)
(*       | [k |-> "str", s : text] | [k |-> "agg", c : Seq(value)]           *)
(*       | [k |-> "case", i : 0-based case, v : value]                       *)
EXTENDS Lib

PrimSize(p) ==
  CASE p \in {"bool", "u8", "i8"} -> 1
    [] p \in {"u16", "i16"} -> 2
    [] p \in {"char", "u32", "i32", "f32"} -> 4
    [] p \in {"u64", "i64", "f64"} -> 8
    [] p \in {"u128", "i128"} -> 16

IsLeaf(t) == t.k \in {"unit", "prim", "string"}
\* component types, in order
Comps(t) == IF t.k = "tuple" THEN t.c
            ELSE IF t.k \in {"struct", "enum"} THEN SeqMap(LAMBDA f : f.t, t.f)
            ELSE <<>>

Arity(t) == IF t.k = "tuple" THEN Len(t.c) ELSE IF t.k \in {"struct", "enum"} THEN Len(t.f) ELSE 0
=============================================================================
