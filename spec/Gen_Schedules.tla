--------------------------- MODULE Gen_Schedules ---------------------------
(* Every schedule with a bounded number of context switches: segments << thread, statements >>, no two in a   *)
(* row by the same thread.  A schedule is repeated until its threads are done; the others follow in order.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NThreads, Bursts, MaxLen
VARIABLES s, done

Init == s = << >> /\ done = FALSE
Extend == /\ ~done /\ Len(s) < MaxLen
          /\ \E t \in 1..NThreads, b \in Bursts :
                /\ (IF s = << >> THEN TRUE ELSE s[Len(s)][1] # t)
                /\ s' = Append(s, << t, b >>)
          /\ UNCHANGED done
\* a schedule of one thread is no interleaving: at least two segments
Out == /\ ~done /\ Len(s) >= 2 /\ done' = TRUE /\ UNCHANGED s
       /\ PrintT("GEN " \o ToJson([s |-> s]))
Next == Extend \/ Out
=============================================================================
