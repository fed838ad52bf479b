------------------------------ MODULE Archive ------------------------------
(* Data sets as the archive holds them and as they are loaded.  Labels are sequences of integers (the number,  *)
(* or the characters), ordered lexicographically.                                                             *)
EXTENDS Num

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE LexLess(Tail(a), Tail(b))

\* the code of label y when the labels of training are ys: its rank
Encode(ys, y) == Cardinality({z \in Range(ys) : LexLess(z, y)})
Codes(ys, zs) == [i \in DOMAIN zs |-> Encode(ys, zs[i])]

ShortestLen(X) == MinSet({Len(X[i][1]) : i \in DOMAIN X})

\* series as loaded (raw: quarters; normalised: fixed point) from the archive's x
Loaded(x, got, norm) ==
  /\ Len(got) = Len(x)
  /\ \A ch \in DOMAIN x :
       IF ~norm THEN got[ch] = x[ch]
       ELSE LET w == ZNorm(x[ch]) IN Len(got[ch]) = Len(w) /\ \A t \in DOMAIN w : Abs(got[ch][t] - w[t]) <= 4
AllLoaded(X, got, norm) == Len(got) = Len(X) /\ \A i \in DOMAIN X : Loaded(X[i], got[i], norm)
=============================================================================
