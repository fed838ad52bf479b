------------------------------- MODULE T_C20 -------------------------------
(* A split resampled several times.  old: << train, test >> of << series, label >> items; runs: results, with  *)
(* the seed and a digest; free: whether there are enough resamples for two seeds to differ surely; in, inputs: *)
(* digest of the inputs before and after each run.                                                             *)
EXTENDS Trace, Resample
VARIABLES c, i, seen, bad

RunBad(k, r) ==
  IF r.refused THEN " refused"
  ELSE Broken(<< << "partition", Partition(k.old, r.new) >>, << "stratified", Stratified(k.old, r.new) >>,
                 << "sizes", Len(r.new[1]) = Len(k.old[1]) /\ Len(r.new[2]) = Len(k.old[2]) >>,
                 << "kind", r.kind = k.kind >>, << "inputs", r.inputs = k.in >>,
                 << "seed", \A p \in seen : p[1] = r.seed => p[2] = r.digest >> >>)

Init == c \in 1..Len(T) /\ i = 1 /\ bad = "" /\ seen = {}
Step == /\ i > 0 /\ T[c].error = "" /\ i <= Len(T[c].runs)
        /\ LET r == T[c].runs[i] b == RunBad(T[c], r)
           IN /\ bad' = bad \o (IF b = "" THEN "" ELSE " run" \o ToString(i) \o ":" \o b)
              /\ seen' = seen \cup {<< r.seed, r.digest >>}
        /\ i' = i + 1 /\ UNCHANGED c
\* the seeds do matter
Differ(k) == k.free => Cardinality({p[2] : p \in seen}) * 2 > Cardinality({p[1] : p \in seen})
End == /\ i > 0 /\ (IF T[c].error # "" THEN TRUE ELSE i = Len(T[c].runs) + 1)
       /\ i' = 0 /\ UNCHANGED << c, seen, bad >>
       /\ Verdict(T[c], IF T[c].error # "" THEN " raised" ELSE bad \o (IF Differ(T[c]) THEN "" ELSE " seeds"))
Next == Step \/ End
=============================================================================
