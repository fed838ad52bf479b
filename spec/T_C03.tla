------------------------------- MODULE T_C03 -------------------------------
(* Recorded fits: every retained shapelet is a window of one training series.                                 *)
EXTENDS Trace, Sampler
VARIABLES c, done

Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE Broken([s \in 1..Len(k.shp) |-> << "shapelet" \o ToString(s), Sources(k, k.shp[s]) # {} >>])

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
=============================================================================
