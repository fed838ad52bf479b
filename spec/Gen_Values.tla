----------------------------- MODULE Gen_Values -----------------------------
(* Every call of the validators within the bounds. *)
EXTENDS Values, Json
CONSTANTS Sizes, Big
VARIABLES call, done

Shapes == UNION {[1..k -> Sizes] : k \in 0..3} \cup [1..4 -> Big]
Others == {"tuple", "str", "none", "number", "ragged", "dict", "set"}
Things == {[ty |-> t, shape |-> s] : t \in {"arr"}, s \in Shapes}
     \cup {[ty |-> "list", shape |-> s] : s \in {s \in Shapes : Len(s) > 0}}
     \cup {[ty |-> "df", shape |-> s] : s \in [1..2 -> Sizes]}
     \cup {[ty |-> t, shape |-> <<>>] : t \in Others}
Calls == {[v |-> v, x |-> x, uni |-> FALSE, mn |-> 2, coerce |-> co] : v \in {1, 2}, x \in Things, co \in BOOLEAN}
    \cup {[v |-> 3, x |-> x, uni |-> u, mn |-> m, coerce |-> TRUE] : x \in Things, u \in BOOLEAN, m \in {0, 2, 4}}
Init == call \in {k \in Calls : k.v = 1 => k.coerce} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED call /\ PrintT("GEN " \o ToJson(call))

\* whatever the dimensions asked for, at most one validator accepts an input
Exclusive == \A u \in BOOLEAN : \A v, w \in 1..3 : (v # w /\ Valid(v, call.x, u, call.mn)) => ~Valid(w, call.x, u, call.mn)
=============================================================================
