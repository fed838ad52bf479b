------------------------------- MODULE Sampler -------------------------------
(* How shapelets are drawn.  A fit is a record                                                                *)
(*   X: series (channels of integers), y: classes (1..k), phase, n: n_shapelets, lens: allowed lengths,       *)
(*   al: alpha in 1/8, pn: normalisation probability (0, 1, or 2 for "between"), prime, maxch, ml: length of  *)
(*   the shortest series considered, pl, ph: percentiles, shp: retained shapelets, with th100: threshold * 100*)
(* and the sampler is a process that, for each dilation and flag, keeps the positions still unmarked.         *)
EXTENDS Series

N(f) == Len(f.X)
Uni(f) == Len(f.X[1]) = 1

\* ---- provenance: the windows of training series a shapelet can have been cut from
Close(a, b, e) == \A j \in 1..Len(a) : Abs(a[j] - b[j]) <= e
FromWindow(f, sh, i, p) ==
  \A k \in 1..Len(sh.ch) :
     IF sh.nm THEN Close(ZNorm(Win(f.X[i][sh.ch[k]], p, sh.l, sh.d)), sh.v[k], 3)
     ELSE Win(f.X[i][sh.ch[k]], p, sh.l, sh.d) = sh.v[k]
Sources(f, sh) ==
  {s \in {<<i, p>> : i \in 1..N(f), p \in 1..MaxSet({SLen(f.X[i]) : i \in 1..N(f)})} :
      s[2] <= NWin(SLen(f.X[s[1]]), sh.l, sh.d, f.phase) /\ FromWindow(f, sh, s[1], s[2])}

\* ---- admissible parameters
ShapeOK(f, sh) ==
  /\ sh.l \in Range(f.lens)
  /\ Len(sh.v) = Len(sh.ch) /\ \A k \in 1..Len(sh.v) : Len(sh.v[k]) = sh.l
SpanOK(f, sh) == sh.d >= 1 /\ (sh.l - 1) * sh.d <= f.ml - 1
PrimeOK(f, sh) == f.prime => sh.d = 1 \/ IsPrime(sh.d)
NormOK(f, sh) == CASE f.pn = 0 -> ~sh.nm [] f.pn = 1 -> sh.nm [] OTHER -> TRUE
ChannelsOK(f, sh) ==
  /\ Len(sh.ch) \in 1..f.maxch
  /\ Range(sh.ch) \subseteq 1..Len(f.X[1])
  /\ Cardinality(Range(sh.ch)) = Len(sh.ch)

\* ---- alpha similarity
Reserve(al, m) == Max2(1, ((8 - al) * m) \div 8)
\* 0-based positions marked by a window of length l at 0-based start p, on a series of n points
Marked(p, l, d, al, m, n) ==
  UNION {{(p - j * d) % n, (p + j * d) % n} : j \in 0..(l - Reserve(al, m) - 1)}

\* marks: set of <<normalised?, dilation, series, channel, position>>
\* 0-based positions a window over channels chs may still start at; univariate data needs them unmarked
Free(marks, uni, nm, d, i, chs, al, nwin) ==
  {p \in 0..(nwin - 1) :
      LET u == Cardinality({c \in chs : <<nm, d, i, c, p>> \notin marks})
      IN IF uni THEN u = 1 ELSE 8 * u >= al * Cardinality(chs)}
AddMarks(marks, nm, d, i, chs, p, l, al, m, n) ==
  marks \cup {<<nm, d, i, c, q>> : c \in chs, q \in Marked(p, l, d, al, m, n)}

\* ---- thresholds
DistTo(f, sh, j) == DistVec(f.X[j], sh, f.phase)
\* the series a shapelet of series i is tested on
Tests(f, i) ==
  LET same == {j \in 1..N(f) : f.y[j] = f.y[i]}
  IN IF same = {i} THEN {i} ELSE same \ {i}
ThresholdFrom(f, sh, j) ==
  LET dv == Sorted(DistTo(f, sh, j))
      e == IF sh.nm THEN 100 * Tol(sh.l, Len(sh.ch)) ELSE 1
  IN Percentile100(dv, f.pl) - e <= sh.th100 /\ sh.th100 <= Percentile100(dv, f.ph) + e
=============================================================================
