------------------------------- MODULE T_C01 -------------------------------
(* Recorded transforms: shapelets, series, and the matrix returned.                                           *)
EXTENDS Trace
VARIABLES c, done

\* the named argmin is not preceded by a window with the very same points (a tie that must go to the first)
NoEqualBefore(x, sh, phase, a) ==
  LET n == SLen(x)
      W(i) == [k \in 1..Len(sh.ch) |-> Win(x[sh.ch[k]], i, sh.l, sh.d)]
  IN \A i \in 1..a : W(i) # W(a + 1)

RowOK(x, shp, phase, row) ==
  \A s \in 1..Len(shp) :
     LET sh == shp[s]
         dv == DistVec(x, sh, phase)
     IN /\ FeatureOK(dv, sh, row[s])
        /\ sh.nm => NoEqualBefore(x, sh, phase, row[s][2])

Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE IF k.out = <<>> THEN " shape"
  ELSE Broken([i \in 1..Len(k.X) |-> << "row" \o ToString(i), RowOK(k.X[i], k.shp, k.phase, k.out[i]) >>])

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
