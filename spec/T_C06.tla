------------------------------- MODULE T_C06 -------------------------------
(* Recorded fits: thresholds against the distances to the other series of the class.                          *)
EXTENDS Trace, Sampler
VARIABLES c, done

ThresholdOK(f, sh) ==
  \E i \in {s[1] : s \in Sources(f, sh)} : \E j \in Tests(f, i) : ThresholdFrom(f, sh, j)

Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE Broken([s \in 1..Len(k.shp) |-> << "shapelet" \o ToString(s), ThresholdOK(k, k.shp[s]) >>])

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
=============================================================================
