------------------------------- MODULE T_C26 -------------------------------
(* Batches of calls of the compiled helpers with what they returned.                                           *)
EXTENDS Trace, Helpers
VARIABLES c, i, bad

Close(a, b, e) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Abs(a[j] - b[j]) <= e
OpBad(o) ==
  CASE o.f = "unique" -> Broken(<< << "unique", o.out = Unique(o.m) >>,
                                   << "unique-axis1", LET u == Unique(o.m) IN o.out1 = << Transpose(u[1]), u[2], u[3] >> >>,
                                   << "input", o.kept >> >>)
    [] o.f = "all" -> Broken(<< << "all-axis0", o.out0 = AllOver(o.m, 0) >>, << "all-axis1", o.out1 = AllOver(o.m, 1) >>,
                                << "all", o.out = \A j \in DOMAIN o.m : All(o.m[j]) >>, << "all-1d", o.row = All(o.m[1]) >> >>)
    [] o.f = "prime" -> Broken(<< << "sieve", o.out = Sieve(o.n) >> >>)
    [] o.f = "pairs" -> Broken(<< << "pairs", o.out = Pairs(o.x, o.y) >> >>)
    [] o.f = "distances" -> Broken(<< << "manhattan", o.l1 = L1(o.a, o.b) >>, << "squared", o.sq = SquaredL2(o.a, o.b) >>,
                                      << "euclidean", Abs(o.l2 - ISqrt(SquaredL2(o.a, o.b) * 10000)) <= 2 >> >>)
    [] o.f = "windows" ->
         LET w == [k \in DOMAIN o.x |-> Windows(o.x[k], o.l, o.d, o.phase)]
             z == [v \in DOMAIN w[1] |-> ZNorm(w[1][v])]
         IN Broken(<< << "windows-1d", o.out1 = w[1] >>, << "windows-2d", o.out2 = w >>,
                      << "subsequences", o.subs = w[1] >>,
                      << "normalised", Len(o.znrm) = Len(z) /\ \A v \in DOMAIN z : Close(o.znrm[v], z[v], 4) >>,
                      << "distances", o.dist = [v \in DOMAIN w[1] |-> L1(w[1][v], o.shp)] >>,
                      << "normalised-distances", Close(o.distn, [v \in DOMAIN z |-> L1(z[v], o.shpn)], Tol(o.l, 1)) >> >>)

Init == c \in 1..Len(T) /\ i = 1 /\ bad = ""
Step == /\ i > 0 /\ T[c].error = "" /\ i <= Len(T[c].ops)
        /\ LET b == OpBad(T[c].ops[i]) IN bad' = bad \o (IF b = "" THEN "" ELSE " op" \o ToString(i) \o ":" \o b)
        /\ i' = i + 1 /\ UNCHANGED c
End == /\ i > 0 /\ (IF T[c].error # "" THEN TRUE ELSE i = Len(T[c].ops) + 1)
       /\ i' = 0 /\ UNCHANGED << c, bad >>
       /\ Verdict(T[c], IF T[c].error # "" THEN " raised" ELSE bad)
Next == Step \/ End
=============================================================================
