------------------------------- MODULE Interp -------------------------------
(* What the interpreter shows.  Features come in threes per shapelet: shapelet s (1-based) owns features        *)
(* 3s - 2, 3s - 1, 3s.                                                                                        *)
EXTENDS Series

\* the importance of every feature for class k: the coefficients of the classes cover the features in use only, and
\* with two classes there is one row, that of the second class
Importance(coefs, used, k) ==
  LET row == IF Len(coefs) = 1 THEN coefs[1] ELSE coefs[k]
      sign == IF Len(coefs) = 1 /\ k = 1 THEN -1 ELSE 1
  IN [f \in DOMAIN used |-> IF ~used[f] THEN 0 ELSE sign * row[Cardinality({g \in 1..f : used[g]})]]

\* the importance of a shapelet is that of its best feature
Best3(imp, s) == MaxSet({imp[3 * s - 2], imp[3 * s - 1], imp[3 * s]})
Shapelets(imp) == 1..(Len(imp) \div 3)
Ranked(imp) == Reverse(Sorted([s \in Shapelets(imp) |-> Best3(imp, s)]))
\* shown: shapelets, best first
ShowsBest(shown, imp, n) ==
  /\ Len(shown) = Min2(n, Len(imp) \div 3)
  /\ \A j \in DOMAIN shown : shown[j] \in Shapelets(imp) /\ Best3(imp, shown[j]) = Ranked(imp)[j]
  /\ \A j, k \in DOMAIN shown : j # k => shown[j] # shown[k]

\* ---- the match drawn on a series x (one channel): positions (0-based) and heights in hundredths
MatchOK(x, sh, phase, pos, vals) ==
  LET n == Len(x)
      dv == DistVec(<< x >>, sh, phase)
      e == IF sh.nm THEN Tol(sh.l, 1) ELSE 0
      m == pos[1] + 1
      w == Win(x, m, sh.l, sh.d)
      S == Sum(w)
      u == [j \in DOMAIN w |-> w[j] - w[1]]
      D == sh.l * SumSq(u) - Sum(u) * Sum(u)
      M == IF D = 0 THEN 1 ELSE ISqrt(IMAX \div D)
      r == ISqrt(D * M * M)
  IN /\ Len(pos) = sh.l /\ Len(vals) = sh.l
     /\ m \in DOMAIN dv
     /\ dv[m] <= MinSeq(dv) + 2 * e
     /\ ~sh.nm => m = FirstMin(dv)
     /\ \A i \in 1..(m - 1) : Win(x, i, sh.l, sh.d) # w
     /\ pos = [j \in 1..sh.l |-> WPos(n, m, sh.l, sh.d)[j] - 1]
     /\ \A j \in 1..sh.l :
          IF ~sh.nm THEN vals[j] = 100 * sh.v[1][j]
          ELSE Abs(sh.l * vals[j] - (DivNear(sh.v[1][j] * r, 50 * M) + 100 * S)) <= 2 * sh.l + 2 + r \div (50 * M)

VectorOK(x, sh, phase, drawn) ==
  LET dv == DistVec(<< x >>, sh, phase) e == IF sh.nm THEN Tol(sh.l, 1) ELSE 0
  IN Len(drawn) = Len(dv) /\ \A i \in DOMAIN dv : Abs(drawn[i] - dv[i]) <= e
=============================================================================
