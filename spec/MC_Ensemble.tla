----------------------------- MODULE MC_Ensemble -----------------------------
(* Fitting an ensemble repeatedly: workers take models in any order; each model has a seed drawn before the   *)
(* workers start, and each worker limits its own threads (numba's limit is local to a thread).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Models, Cpus, NFits, Mutant
VARIABLES jobs0, jobs, fit, phase, workers, each, seeds, next, limit, running, done, got, used

vars == << jobs0, jobs, fit, phase, workers, each, seeds, next, limit, running, done, got, used >>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Resolve(n) == IF n > 0 THEN Min(n, Cpus) ELSE Max(1, Cpus + n + 1)
CeilDiv(a, b) == (a + b - 1) \div b

Init == /\ jobs0 \in ((-Cpus - 1)..(Cpus + 1)) \ {0} /\ jobs = jobs0
        /\ fit = 1 /\ phase = "plan" /\ workers = 0 /\ each = 0 /\ seeds = [m \in 1..Models |-> 0] /\ next = 1
        /\ limit = [m \in 1..Models |-> Cpus] /\ running = {} /\ done = {}
        /\ got = [f \in 1..NFits |-> [m \in 1..Models |-> 0]] /\ used = [f \in 1..NFits |-> <<>>]

Plan == /\ phase = "plan" /\ fit <= NFits
        /\ LET j == Resolve(jobs) w == Min(Models, j) e == IF Mutant = "ceil" THEN CeilDiv(j, w) ELSE Max(1, j \div w)
           IN /\ workers' = w /\ each' = e /\ used' = [used EXCEPT ![fit] = << w, e >>]
              /\ jobs' = IF Mutant = "overwrite" THEN w ELSE jobs
        \* one generator state per fit: 1, 2, ... are the numbers it yields
        /\ seeds' = IF Mutant = "shared" THEN seeds ELSE [m \in 1..Models |-> m]
        /\ next' = 1 /\ limit' = [m \in 1..Models |-> Cpus] /\ phase' = "work" /\ done' = {}
        /\ UNCHANGED << jobs0, fit, running, got >>
Start(m) == /\ phase = "work" /\ m \notin running /\ m \notin done /\ Cardinality(running) < workers
            /\ running' = running \cup {m}
            \* a single worker is the main thread
            /\ limit' = [limit EXCEPT ![m] = IF Mutant = "mainonly" /\ workers > 1 THEN Cpus ELSE each]
            /\ got' = [got EXCEPT ![fit][m] = IF Mutant = "shared" THEN next ELSE seeds[m]]
            /\ next' = next + 1
            /\ UNCHANGED << jobs0, jobs, fit, phase, workers, each, seeds, done, used >>
Finish(m) == /\ m \in running /\ running' = running \ {m} /\ done' = done \cup {m}
             /\ UNCHANGED << jobs0, jobs, fit, phase, workers, each, seeds, next, limit, got, used >>
End == /\ phase = "work" /\ done = 1..Models /\ phase' = "plan" /\ fit' = fit + 1
       /\ UNCHANGED << jobs0, jobs, workers, each, seeds, next, limit, running, done, got, used >>
Next == Plan \/ End \/ \E m \in 1..Models : Start(m) \/ Finish(m)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE SumOver(_)
SumOver(S) == IF S = {} THEN 0 ELSE LET m == CHOOSE m \in S : TRUE IN limit[m] + SumOver(S \ {m})
Budget == SumOver(running) <= Resolve(jobs0)
Deterministic == \A f \in 1..NFits : f < fit => \A m \in 1..Models : got[f][m] = m
SameNumbers == \A f, g \in 1..NFits : (used[f] # <<>> /\ used[g] # <<>>) => used[f] = used[g]
\* no worker idles while a model waits
NoIdle == (phase = "work" /\ ENABLED Next) => (Cardinality(running) < workers /\ running \cup done # 1..Models => \E m \in 1..Models : ENABLED Start(m))
Ends == <>(fit = NFits + 1)
=============================================================================
