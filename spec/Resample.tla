------------------------------ MODULE Resample ------------------------------
(* What a stratified resample of a train/test split is.  Items are << series, label >>; `series` names the     *)
(* content of a series.                                                                                        *)
EXTENDS Num

Occurs(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) : Occurs(s, x) = Occurs(t, x)
Labels(s) == [i \in DOMAIN s |-> s[i][2]]

\* new << train, test >> of old << train, test >>
Partition(old, new) == SameBag(old[1] \o old[2], new[1] \o new[2])
Stratified(old, new) == /\ SameBag(Labels(old[1]), Labels(new[1]))
                        /\ SameBag(Labels(old[2]), Labels(new[2]))
=============================================================================
