------------------------------- MODULE T_C14 -------------------------------
EXTENDS Trace, Lengths
VARIABLES c, done

Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE IF Refused(k.g, k.m) THEN (IF k.out = "ValueError" THEN "" ELSE " accepted:" \o k.out)
  ELSE IF k.out # "ok" THEN " refused:" \o k.out
  ELSE LET u == Used(k.g, k.m)
       IN Broken(<< << "lengths", Range(k.seen) \subseteq u >>,
                    << "missing", (k.all /\ Cardinality(u) <= 8) => u \subseteq Range(k.seen) >>,
                    << "warning", Warned(k.g, k.m) => k.warned >> >>)

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
=============================================================================
