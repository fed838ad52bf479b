------------------------------- MODULE T_C19 -------------------------------
(* One ensemble fitted and asked under many schedules and numbers of jobs.  runs: outcomes (see T_Same);      *)
(* calls: << n_jobs, models, workers, threads of every parallel kernel, by model >> of every parallel section.*)
EXTENDS Trace, Ensemble
VARIABLES c, done

CallOK(k, x) ==
  LET j == Jobs(x.jobs, k.cpus)
  IN /\ x.workers = Workers(j, x.models)
     /\ \A m \in 1..Len(x.threads) : \A t \in Range(x.threads[m]) : t = ThreadsEach(j, x.models)
     /\ x.workers * ThreadsEach(j, x.models) <= j

Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE Broken([i \in 1..Len(k.runs) |-> << k.runs[i].what, k.runs[i].out = k.refs[k.runs[i].ref] >>])
       \o Broken([i \in 1..Len(k.calls) |-> << "threads:" \o k.calls[i].what, CallOK(k, k.calls[i]) >>])

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
=============================================================================
