------------------------------- MODULE Values -------------------------------
(* Python values as the specification sees them: records with a type ty and, where it matters,                *)
(*   n: the number in thousandths (numbers), s: the text (strings), e: elements (lists and 1D arrays),        *)
(*   shape: dimensions (arrays and nested lists).                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

IntV(n) == [ty |-> "int", n |-> n * 1000]
Float(n) == [ty |-> "float", n |-> n]
NpInt(n) == [ty |-> "npint", n |-> n * 1000]
NpFloat(n) == [ty |-> "npfloat", n |-> n]
Bool(b) == [ty |-> "bool", b |-> b]
NpBool(b) == [ty |-> "npbool", b |-> b]
Str(s) == [ty |-> "str", s |-> s]
None == [ty |-> "none"]
List(e) == [ty |-> "list", e |-> e]
Arr(e) == [ty |-> "arr", e |-> e]
Nested(e) == [ty |-> "nested", e |-> e]          \* [e], a list in a list

IsNumber(v) == v.ty \in {"int", "float", "npint", "npfloat"}
IsInteger(v) == v.ty \in {"int", "npint"}
IsBool(v) == v.ty = "bool"
Numbers(s) == \A i \in 1..Len(s) : IsNumber(s[i])

\* ---- array-likes given to the validators
\* A nested list loses the dimensions after an empty one.
RECURSIVE Eff(_)
Eff(sh) == IF sh = <<>> THEN <<>> ELSE IF Head(sh) = 0 THEN <<0>> ELSE <<Head(sh)>> \o Eff(Tail(sh))
Shape(x) == IF x.ty = "list" THEN Eff(x.shape) ELSE x.shape
NoZero(sh) == \A i \in 1..Len(sh) : sh[i] > 0

\* v: 1, 2 or 3, the dimensions asked for
Valid(v, x, uni, mn) ==
  /\ x.ty \in (IF v = 2 THEN {"arr", "list", "df"} ELSE {"arr", "list"})
  /\ Len(Shape(x)) = v /\ NoZero(Shape(x))
  /\ v = 3 => Shape(x)[3] > mn /\ (uni => Shape(x)[2] = 1)
=============================================================================
