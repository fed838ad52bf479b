------------------------------- MODULE T_C07 -------------------------------
(* Recorded calls with sound and unsound input, on one fitted model: refused with ValueError exactly when     *)
(* unsound or incompatible, and the model is the same afterwards.                                             *)
EXTENDS Trace, Inputs
VARIABLES c, i, bad

CallBad(k, r) ==
  IF r.op = "fit" THEN IF Sound(r.x) THEN (IF r.out = "ok" THEN "" ELSE "refused-fit") ELSE (IF r.out = "ValueError" THEN "" ELSE "fit:" \o r.out)
  ELSE IF r.op = "refused" THEN (IF r.out = "ValueError" THEN "" ELSE "fit:" \o r.out)
  ELSE IF Accepts(r.x, k.nch, k.span, k.phase)
       THEN (IF r.out = "ok" THEN "" ELSE "refused:" \o r.out)
       ELSE (IF r.out = "ValueError" THEN "" ELSE "accepted:" \o r.out)

Init == c \in 1..Len(T) /\ i = 1 /\ bad = ""
Step == /\ i > 0 /\ T[c].error = "" /\ i <= Len(T[c].calls)
        /\ LET r == T[c].calls[i] b == CallBad(T[c], r)
           IN bad' = bad \o (IF b = "" THEN "" ELSE " call" \o ToString(i) \o ":" \o b)
                         \o (IF r.model = T[c].model THEN "" ELSE " call" \o ToString(i) \o ":model-changed")
                         \o (IF r.again = T[c].ref THEN "" ELSE " call" \o ToString(i) \o ":result-changed")
        /\ i' = i + 1 /\ UNCHANGED c
\* min_len above the shortest series: like the length of that series
MinLen(k) == k.minlen[1] = k.minlen[2]
End == /\ i > 0 /\ (IF T[c].error # "" THEN TRUE ELSE i = Len(T[c].calls) + 1)
       /\ i' = 0 /\ UNCHANGED << c, bad >>
       /\ Verdict(T[c], IF T[c].error # "" THEN " raised" ELSE IF MinLen(T[c]) THEN bad ELSE bad \o " min_len")
Next == Step \/ End
=============================================================================
