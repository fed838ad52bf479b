------------------------------- MODULE T_Same -------------------------------
(* Several executions whose outcomes the specification makes equal: every run of a case must have the outcome *)
(* of its group.  `apart` lists groups of runs that draw anew and so must not repeat the run before.          *)
EXTENDS Trace
VARIABLES c, done

Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE Broken([i \in 1..Len(k.runs) |-> << k.runs[i].what \o "=" \o k.runs[i].out, k.runs[i].out = k.refs[k.runs[i].ref] >>])
       \o Broken([i \in 1..(Len(k.apart) - 1) |-> << "repeats" \o ToString(i), k.apart[i] # k.apart[i + 1] >>])

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
=============================================================================
