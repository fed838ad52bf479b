---------------------------- MODULE MC_Resample ----------------------------
(* The resampling algorithm: class by class, the positions of the class in the pool are shuffled, as many as   *)
(* the class has in train go to train, the others to test.                                                     *)
EXTENDS Resample
CONSTANTS MaxPer, Classes, Mutant
VARIABLES old, k, train, test

Counts == [1..Classes -> 1..MaxPer]
\* the split with nt[c] and ns[c] series of class c, series numbered through
Split(nt, ns) ==
  LET tr == FoldLeft(LAMBDA a, c : a \o [i \in 1..nt[c] |-> << 10 * c + i, c >>], <<>>, [c \in 1..Classes |-> c])
      te == FoldLeft(LAMBDA a, c : a \o [i \in 1..ns[c] |-> << 10 * c + nt[c] + i, c >>], <<>>, [c \in 1..Classes |-> c])
  IN << tr, te >>
Pool == old[1] \o old[2]
Of(c) == SelectSeq([i \in 1..Len(Pool) |-> i], LAMBDA i : Pool[i][2] = c)
InTrain(c) == Occurs(Labels(old[1]), IF Mutant = "count" /\ c > 1 THEN c - 1 ELSE c)
Perms(s) == {[i \in DOMAIN s |-> s[p[i]]] : p \in {p \in [DOMAIN s -> DOMAIN s] : \A i, j \in DOMAIN s : p[i] = p[j] => i = j}}

Init == /\ \E nt \in Counts, ns \in Counts : old = Split(nt, ns)
        /\ k = 1 /\ train = <<>> /\ test = <<>>
Next == /\ k <= Classes
        /\ \E p \in Perms(Of(k)), q \in Perms(Of(k)) :
             /\ (Mutant # "twice") => p = q                      \* (broken) train and test shuffled apart
             /\ LET n == Min2(InTrain(k), Len(p))
                IN /\ train' = train \o [i \in 1..n |-> Pool[p[i]]]
                   /\ test' = test \o [i \in 1..(Len(q) - n) |-> Pool[q[n + i]]]
        /\ k' = k + 1 /\ UNCHANGED old

Done == k > Classes
IsPartition == Done => Partition(old, << train, test >>)
IsStratified == Done => Stratified(old, << train, test >>)
Sizes == Done => Len(train) = Len(old[1]) /\ Len(test) = Len(old[2])
=============================================================================
