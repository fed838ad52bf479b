------------------------------- MODULE T_C12 -------------------------------
EXTENDS Trace, Values
VARIABLES c, done

Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE LET ok == Valid(k.v, k.x, k.uni, k.mn)
       IN IF ~ok THEN (IF k.out = "ValueError" THEN "" ELSE " invalid:" \o k.out)
          ELSE IF k.out # "ok" THEN " refused:" \o k.out
          ELSE Broken(<< << "shape", k.oshape = Shape(k.x) >>, << "values", k.same >>, << "changed", k.unchanged >>,
                         << "type", k.isarr = ~(k.v = 2 /\ k.x.ty = "df" /\ ~k.coerce) >> >>)

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
=============================================================================
