------------------------------- MODULE T_C13 -------------------------------
EXTENDS Trace, Params
VARIABLES c, done

TypeStored(k) == "transform_type" \in DOMAIN k.args => Lower(k.stored_type) = Lower(k.args["transform_type"].s)
JobsStored(k) == "n_jobs" \in DOMAIN k.args => k.stored_jobs = Jobs(k.args["n_jobs"], k.cpus)
\* an ensemble: as many normalisation probabilities as input transformers
Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE IF k.tag = "ensemble"
       THEN IF k.np = k.nt THEN (IF k.out = "ok" THEN "" ELSE " refused:" \o k.out) ELSE (IF k.out = "ValueError" THEN "" ELSE " accepted:" \o k.out)
  ELSE IF k.tag = "jobs"
       THEN IF ~Accepted("n_jobs", k.arg) THEN (IF k.out = "ValueError" THEN "" ELSE " accepted:" \o k.out)
            ELSE IF k.out = "ok" /\ k.jobs = Jobs(k.arg, k.cpus) THEN "" ELSE " jobs:" \o k.out
  ELSE IF ~AllAccepted(k.args) THEN (IF k.out = "ValueError" THEN "" ELSE " accepted:" \o k.out)
  ELSE IF k.out # "ok" THEN " refused:" \o k.out
  ELSE Broken(<< << "type", TypeStored(k) >>, << "jobs", JobsStored(k) >> >>)
       \o (IF k.changed = "" THEN "" ELSE " changed:" \o k.changed)

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
=============================================================================
