------------------------------- MODULE MC_Holm -------------------------------
(* The step-down loop against its definition, for every list of p-values.                                      *)
EXTENDS Holm
CONSTANTS Pairs, MaxP, Mutant
VARIABLES ps, alpha, i, flag, stop

Asc(s) == \A j \in 1..(Len(s) - 1) : s[j] <= s[j + 1]
Init == /\ ps \in {s \in [1..Pairs -> 0..MaxP] : Asc(s)} /\ alpha \in {0, 3, 6, 12}
        /\ i = 1 /\ flag = [j \in 1..Pairs |-> FALSE] /\ stop = FALSE
Left == CASE Mutant = "bonferroni" -> Pairs [] Mutant = "offbyone" -> Pairs - i [] OTHER -> Pairs - i + 1
Small == IF Mutant = "strict" THEN ps[i] * Left < alpha ELSE ps[i] * Left <= alpha
Next == /\ i <= Pairs /\ ~stop
        /\ IF Small THEN flag' = [flag EXCEPT ![i] = TRUE] /\ stop' = FALSE
           ELSE flag' = flag /\ stop' = (Mutant # "continue")
        /\ i' = i + 1 /\ UNCHANGED << ps, alpha >>
Done == stop \/ i > Pairs
Agrees == Done => \A j \in 1..Pairs : flag[j] = Rejects(ps, alpha, j)
\* what is rejected is a prefix, and includes what Bonferroni rejects
Prefix == \A j \in 2..Pairs : flag[j] => flag[j - 1]
AtLeastBonferroni == Done => \A j \in 1..Pairs : (ps[j] * Pairs <= alpha) => flag[j]
=============================================================================
