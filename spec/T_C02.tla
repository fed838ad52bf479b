------------------------------- MODULE T_C02 -------------------------------
(* A fitted transformer is a function of one series: rows[s] names the row of series s (transformed alone).   *)
(* Every recorded call is given some of the series, in some order, and must return their rows.                *)
EXTENDS Trace
VARIABLES c, i, bad

CallOK(k, r) ==
  CASE r.raised # "" -> "raised"
    [] r.nrows # Len(r.map) -> "rows"
    [] r.ncols # 3 * k.nshp -> "columns"
    [] ~r.finite -> "finite"
    [] \E j \in 1..Len(r.map) : r.out[j] # k.rows[r.map[j]] -> "values"
    [] ~r.same_input -> "input-changed"
    [] r.model # k.model -> "model-changed"
    [] OTHER -> ""

Init == c \in 1..Len(T) /\ i = 1 /\ bad = ""
Step == /\ i > 0 /\ T[c].error = "" /\ i <= Len(T[c].calls)
        /\ LET b == CallOK(T[c], T[c].calls[i])
           IN bad' = bad \o (IF b = "" THEN "" ELSE " call" \o ToString(i) \o ":" \o b)
        /\ i' = i + 1 /\ UNCHANGED c
End == /\ i > 0 /\ (IF T[c].error # "" THEN TRUE ELSE i = Len(T[c].calls) + 1)
       /\ i' = 0 /\ UNCHANGED << c, bad >>
       /\ Verdict(T[c], IF T[c].error # "" THEN " raised" ELSE bad)
Next == Step \/ End
=============================================================================
