------------------------------- MODULE T_C08 -------------------------------
(* The same fit and transform under many schedules: every run has the outcome of the single-threaded run      *)
(* (runs, refs), and the recorded accesses of the iterations of its parallel loops are free of conflicts.      *)
EXTENDS Trace, Access
VARIABLES c, done

LoopName(l, k) == l.what \o ":" \o ToString(k)
Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE Broken([i \in 1..Len(k.runs) |-> << k.runs[i].what \o "=" \o k.runs[i].out, k.runs[i].out = k.refs[k.runs[i].ref] >>])
       \o Broken([i \in 1..Len(k.loops) |-> << "conflict:" \o LoopName(k.loops[i], i), ConflictFree(k.loops[i].its) >>])

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
=============================================================================
