------------------------------- MODULE Ridge -------------------------------
(* The ridge pipeline: what its state is after fit, and what a ridge classifier is shown at fit and predict.  *)
(* A feature matrix is a sequence of columns; every column is in a unit of its own.                           *)
EXTENDS Num

Varies(col) == \E i \in DOMAIN col : col[i] # col[1]
\* indices of the features that vary in training, in order
Kept(cols) == SelectSeq([j \in 1..Len(cols) |-> j], LAMBDA j : Varies(cols[j]))

\* (x - mean) / deviation of a column, in thousandths
ZScore(col, x) ==
  LET l == Len(col)
      b == col[1]
      u == [i \in 1..l |-> col[i] - b]
      S == Sum(u)
      D == l * SumSq(u) - S * S
      M == ISqrt(IMAX \div D)
      r == ISqrt(D * M * M)
  IN DivNear((l * (x - b) - S) * M * 1000, r)

FAR == -1000000007                       \* a value too far from the training values to be logged
Near(a, b) == Abs(a - b) <= 6 + Abs(b) \div 64
\* `seen` is what becomes of `row` after training on `cols`
Shown(cols, row, seen) ==
  LET kept == Kept(cols)
  IN /\ Len(seen) = Len(kept)
     /\ \A j \in 1..Len(kept) : row[kept[j]] = FAR \/ Near(seen[j], ZScore(cols[kept[j]], row[kept[j]]))

Row(cols, i) == [j \in 1..Len(cols) |-> cols[j][i]]

\* two labellings of the same series that differ only in the names of the classes
Renamed(a, b) == Len(a) = Len(b) /\ \A i, j \in DOMAIN a : (a[i] = a[j]) <=> (b[i] = b[j])
NameOf(y, ly, k) == y[CHOOSE i \in DOMAIN y : ly[i] = k]

\* classes a ridge classifier may answer with, given its decision values (millionths) for one series
Answers(dec) ==
  IF Len(dec) = 1 THEN (IF dec[1] >= -1 THEN {2} ELSE {}) \cup (IF dec[1] <= 1 THEN {1} ELSE {})
  ELSE LET m == MaxSeq(dec) IN {j \in 1..Len(dec) : dec[j] >= m - 2}
=============================================================================
