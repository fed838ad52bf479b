------------------------------ MODULE Helpers ------------------------------
(* Definitions of the compiled helpers.  Matrices are sequences of rows of integers.                          *)
EXTENDS Series

RECURSIVE RowLess(_, _)
RowLess(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE RowLess(Tail(a), Tail(b))
Transpose(m) == [j \in 1..Len(m[1]) |-> [i \in DOMAIN m |-> m[i][j]]]
\* << distinct rows, first positions (from 0), counts >>
Unique(m) ==
  LET u == SetToSortSeq(Range(m), RowLess)
  IN << u, [k \in DOMAIN u |-> MinSet({i \in DOMAIN m : m[i] = u[k]}) - 1],
        [k \in DOMAIN u |-> Cardinality({i \in DOMAIN m : m[i] = u[k]})] >>

All(s) == \A i \in DOMAIN s : s[i] # 0
AllOver(m, axis) == IF axis = 0 THEN [j \in 1..Len(m[1]) |-> All([i \in DOMAIN m |-> m[i][j]])] ELSE [i \in DOMAIN m |-> All(m[i])]

Sieve(n) == SelectSeq([i \in 1..n |-> i], LAMBDA k : k = 1 \/ IsPrime(k))

Windows(s, l, d, phase) == [i \in 1..NWin(Len(s), l, d, phase) |-> Win(s, i, l, d)]

\* the distinct pairs (x[i], y[i]), in order of first occurrence
Pairs(x, y) == LET f == SelectSeq([i \in DOMAIN x |-> i], LAMBDA i : \A j \in 1..(i - 1) : << x[j], y[j] >> # << x[i], y[i] >>)
               IN [k \in DOMAIN f |-> << x[f[k]], y[f[k]] >>]

SquaredL2(a, b) == Sum([j \in DOMAIN a |-> (a[j] - b[j]) * (a[j] - b[j])])
=============================================================================
