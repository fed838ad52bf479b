------------------------------ MODULE Ensemble ------------------------------
(* The ensemble: weights, votes, and the number of workers and threads.                                       *)
EXTENDS Ridge

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)

\* --- votes.  Decision values are multiples of ln 2: e^d = 2^k, so that probabilities are rational.
\* exponents of the classes: <<-k, k>> for a binary decision value k
Logits(dec) == IF Len(dec) = 1 THEN << -dec[1], dec[1] >> ELSE dec
\* probability of every class in units of 1/UNIT
UNIT == 100000
Softmax(dec) ==
  LET e == Logits(dec)
      hi == MaxSeq(e)
      w == [j \in 1..Len(e) |-> IF hi - e[j] > 14 THEN 0 ELSE Pow(2, 14 - (hi - e[j]))]     \* less than half a unit is nothing
      s == Sum(w)
  IN [j \in 1..Len(e) |-> DivNear(w[j] * UNIT, s)]

\* leave-one-out predictions: loo[i] are the decision values of training series i, left out; y: its class
LooClass(v) == IF Len(v) = 1 THEN (IF v[1] > 0 THEN 2 ELSE 1) ELSE CHOOSE j \in 1..Len(v) : \A k \in 1..Len(v) : v[k] <= v[j]
Hits(loo, y) == Cardinality({i \in 1..Len(y) : LooClass(loo[i]) = y[i]})
\* the weight of a model times n^a_w, times WUnit(h): h is twice a_w, and roots are rounded down
WUnit(h) == IF h % 2 = 0 THEN 1 ELSE CASE h = 1 -> 1000 [] h = 3 -> 100 [] OTHER -> 10
Weight(loo, y, h) ==
  LET p == Hits(loo, y)
  IN IF h % 2 = 0 THEN Pow(p, h \div 2) ELSE ISqrt(Pow(p, h) * WUnit(h) * WUnit(h))

\* decs: one decision per model for one series
Vote(decs, ws) ==
  LET ps == [m \in 1..Len(decs) |-> Softmax(decs[m])]
  IN [j \in 1..Len(ps[1]) |-> Sum([m \in 1..Len(ps) |-> ps[m][j] * ws[m]])]

\* classes whose votes are equal because every model that counts treats them alike: an exact tie
Alike(decs, ws, a, b) == \A m \in 1..Len(decs) : ws[m] = 0 \/ Logits(decs[m])[a] = Logits(decs[m])[b]
\* classes the ensemble may answer: the largest vote, the first of an exact tie
Elected(decs, ws, h) ==
  LET v == Vote(decs, ws)
      top == MaxSeq(v)
      slack == IF h % 2 = 0 THEN 0 ELSE UNIT * Len(ws)                   \* each rounded weight is less than one too small
      near == {j \in 1..Len(v) : v[j] >= top - 2 * Sum(ws) - slack}
  IN {j \in near : ~\E k \in near : k < j /\ Alike(decs, ws, k, j)}

\* --- workers and threads
Jobs(n, cpus) == IF n > 0 THEN Min2(n, cpus) ELSE Max2(1, cpus + n + 1)       \* n # 0
Workers(j, t) == Min2(j, t)
ThreadsEach(j, t) == Max2(1, j \div Workers(j, t))
=============================================================================
