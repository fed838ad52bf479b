------------------------------- MODULE T_C04 -------------------------------
(* Recorded fits: parameters of the retained shapelets.                                                       *)
EXTENDS Trace, Sampler
VARIABLES c, done

Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE Broken(<< << "number", Len(k.shp) <= k.n >> >> \o
              [s \in 1..Len(k.shp) |->
                 LET sh == k.shp[s]
                 IN << "shapelet" \o ToString(s) \o (CASE ~ShapeOK(k, sh) -> ":length" [] ~SpanOK(k, sh) -> ":dilation"
                          [] ~PrimeOK(k, sh) -> ":prime" [] ~NormOK(k, sh) -> ":norm" [] OTHER -> ":channels"),
                       ShapeOK(k, sh) /\ SpanOK(k, sh) /\ PrimeOK(k, sh) /\ NormOK(k, sh) /\ ChannelsOK(k, sh) >>])

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
=============================================================================
