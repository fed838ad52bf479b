------------------------------- MODULE Series -------------------------------
(* What a shapelet is and what it measures: windows of a series, distances, and the three features.          *)
(*                                                                                                            *)
(* A series is a sequence of channels, each a sequence of integers (true length: no padding).                 *)
(* A shapelet is a record  l: length, d: dilation, nm: normalised?, ch: channels (1-based), v: one sequence   *)
(* of l values per channel (raw units, or fixed point K when normalised), th: threshold (floor, same scale).  *)
EXTENDS Num

SLen(x) == Len(x[1])
\* positions (1-based) of window i of length l, dilation d on n points
WPos(n, i, l, d) == [j \in 1..l |-> ((i - 1 + (j - 1) * d) % n) + 1]
NWin(n, l, d, phase) == IF phase THEN n ELSE Max2(0, n - (l - 1) * d)
Win(s, i, l, d) == LET p == WPos(Len(s), i, l, d) IN [j \in 1..l |-> s[p[j]]]
NWinVals(s, i, l, d, nm) == IF nm THEN ZNorm(Win(s, i, l, d)) ELSE Win(s, i, l, d)

L1(a, b) == FoldLeft(LAMBDA acc, j : acc + Abs(a[j] - b[j]), 0, [j \in 1..Len(a) |-> j])

\* distance vector of a shapelet on a series
DistVec(x, sh, phase) ==
  [i \in 1..NWin(SLen(x), sh.l, sh.d, phase) |->
     FoldLeft(LAMBDA acc, k : acc + L1(NWinVals(x[sh.ch[k]], i, sh.l, sh.d, sh.nm), sh.v[k]),
              0, [k \in 1..Len(sh.ch) |-> k])]

FirstMin(dv) == LET m == MinSeq(dv) IN CHOOSE i \in 1..Len(dv) : dv[i] = m /\ \A j \in 1..(i - 1) : dv[j] # m
Matches(dv, th) == Count(dv, LAMBDA a : a <= th)
Features(dv, th) == << MinSeq(dv), FirstMin(dv) - 1, Matches(dv, th) >>

\* rounding slack of a fixed-point distance over l points and k channels
Tol(l, k) == 2 * l * k + 2

\* does an observed triple <<min, argmin, count>> agree with the distance vector?  Exact on raw values; in fixed
\* point any window within the slack of the minimum may be named, but not one preceded by a clearly better one.
FeatureOK(dv, sh, f) ==
  IF ~sh.nm THEN f = Features(dv, sh.th)
  ELSE LET e == Tol(sh.l, Len(sh.ch))
           m == MinSeq(dv)
           lo == Matches(dv, sh.th - e)
           hi == Matches(dv, sh.th + e)
       IN /\ Abs(f[1] - m) <= e
          /\ f[2] \in 0..(Len(dv) - 1)
          /\ dv[f[2] + 1] <= m + 2 * e
          /\ f[3] >= lo /\ f[3] <= hi
=============================================================================
