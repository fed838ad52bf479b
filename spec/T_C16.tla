------------------------------- MODULE T_C16 -------------------------------
(* Two fits with the same seed, without and with normalize_output.  plain: matrix of the first, scaled: of    *)
(* the second (millionths), both as rows of <<min, argmin, count>> triples; len: true lengths of the series.  *)
EXTENDS Trace
VARIABLES c, done

S == 1000000
Cell(n, a, b) == a >= 0 /\ a <= n /\ b >= 0 /\ Abs(b * n - a * S) <= n
RowBad(n, p, q) ==
  \E s \in 1..Len(p) : ~(p[s][1] = q[s][1] /\ Cell(n, p[s][2], q[s][2]) /\ Cell(n, p[s][3], q[s][3]))

Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE Broken(<< << "shapelets", k.models[1] = k.models[2] >>,
                 << "ridge", k.ridge[1] = k.ridge[2] >>,
                 << "shape", Len(k.plain) = Len(k.len) /\ Len(k.scaled) = Len(k.len) >> >>)
       \o (IF Len(k.scaled) # Len(k.len) THEN ""
           ELSE Broken([i \in 1..Len(k.len) |-> << "row" \o ToString(i), ~RowBad(k.len[i], k.plain[i], k.scaled[i]) >>]))

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
=============================================================================
