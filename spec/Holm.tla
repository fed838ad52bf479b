-------------------------------- MODULE Holm --------------------------------
(* Comparison of classifiers: pairing by data set, Holm's step-down correction, ranks, groups.                 *)
(* p-values and alpha are integers in one unit.  acc[c] is the sequence of scores of c, by data set.           *)
EXTENDS Num

\* does position i of the ascending p-values ps reject: it and all before it are small enough
Rejects(ps, alpha, i) == \A j \in 1..i : ps[j] * (Len(ps) - j + 1) <= alpha

\* twice the rank of c on data set d (1 is best, ties share the mean)
Rank2(acc, c, d) == LET better == Cardinality({e \in DOMAIN acc : acc[e][d] > acc[c][d]})
                        equal == Cardinality({e \in DOMAIN acc : acc[e][d] = acc[c][d]})
                    IN 2 * better + equal + 1
\* 2 * (number of data sets) * average rank
RankSum2(acc, c) == Sum([d \in DOMAIN acc[c] |-> Rank2(acc, c, d)])

\* classifiers on most data sets: has[c] is the number of data sets of c
Compared(has) == {c \in DOMAIN has : \A e \in DOMAIN has : has[e] <= has[c]}

\* maximal groups (two or more) of S without an edge in different
Groups(S, different) ==
  LET free(G) == \A a, b \in G : a # b => {a, b} \notin different
      all == {G \in SUBSET S : Cardinality(G) >= 2 /\ free(G)}
  IN {G \in all : ~\E H \in all : G \subseteq H /\ G # H}
=============================================================================
