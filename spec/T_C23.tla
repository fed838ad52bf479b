------------------------------- MODULE T_C23 -------------------------------
(* op "compare": a table of results compared by _wilcoxon_holm and drawn.                                      *)
(*   acc[c]: scores of classifier c by data set (<<>> where it has none: see has); p: p-values as              *)
(*   << {a, b} as a pair, p >>; calls: what the test was given; found: << a, b, p, different >> as returned,     *)
(*   in order; ranks: << c, 10000 * average rank >> in order; nb: number of data sets                           *)
(*   bars: rank spans of the bars of the diagram, marks: << c, rank >> drawn, saved: paths, path: path wanted   *)
(* op "plot": pairwise plots: tables of scores, axes: what each axis shows                                     *)
EXTENDS Trace, Holm
VARIABLES c, i, bad

Norm(a, b) == IF a < b THEN << a, b >> ELSE << b, a >>
PairsOf(S) == {Norm(a, b) : << a, b >> \in {x \in S \X S : x[1] # x[2]}}
Bag(s) == [x \in Range(s) |-> Cardinality({j \in DOMAIN s : s[j] = x})]

CompareBad(o) ==
  LET S == Compared(o.has)
      pairs == PairsOf(S)
      n == MaxSeq(o.has)
      P(q) == (CHOOSE x \in Range(o.p) : << x[1], x[2] >> = q)[3]
      zip(a, b) == [d \in 1..n |-> << o.acc[a][d], o.acc[b][d] >>]
      \* each test was given the scores of a pair of classifiers on the same data sets
      paired(k) == /\ Len(k.x) = n /\ Len(k.y) = n
                   /\ \E a, b \in S : a # b /\ Bag([d \in 1..n |-> << k.x[d], k.y[d] >>]) = Bag(zip(a, b))
      ps == [j \in DOMAIN o.found |-> o.found[j][3]]
      sub == [a \in S |-> [d \in 1..n |-> o.acc[a][d]]]
      different == {{o.found[j][1], o.found[j][2]} : j \in {j \in DOMAIN o.found : o.found[j][4]}}
      rank(a) == DivNear(RankSum2(sub, a) * 5000, n)
      span(G) == LET r == {rank(a) : a \in G} IN << MinSet(r), MaxSet(r) >>
      want == Groups(S, different)
      near(x, y) == Abs(x - y) <= 300
  IN Broken(<< << "pairing", \A k \in Range(o.calls) : paired(k) >>,
               << "pairs", Len(o.found) = Cardinality(pairs) /\ {Norm(f[1], f[2]) : f \in Range(o.found)} = pairs >>,
               << "p-values", \A f \in Range(o.found) : Norm(f[1], f[2]) \in pairs => f[3] = P(Norm(f[1], f[2])) >>,
               << "order", \A j \in 1..(Len(ps) - 1) : ps[j] <= ps[j + 1] >>,
               << "holm", \A j \in DOMAIN ps : o.found[j][4] = Rejects(ps, o.alpha, j) >>,
               << "ranks", /\ Len(o.ranks) = Cardinality(S) /\ {r[1] : r \in Range(o.ranks)} = S
                           /\ \A r \in Range(o.ranks) : r[1] \in S => Abs(r[2] - rank(r[1])) <= 2 >>,
               << "datasets", o.nb = n >> >>)
     \o (IF ~o.drawn THEN ""
         ELSE Broken(<< << "bars", /\ Len(o.bars) = Cardinality(want)
                                   /\ \A G \in want : \E b \in Range(o.bars) : near(b[1], span(G)[1]) /\ near(b[2], span(G)[2])
                                   /\ \A b \in Range(o.bars) : \E G \in want : near(b[1], span(G)[1]) /\ near(b[2], span(G)[2]) >>,
                        << "marks", /\ {m[1] : m \in Range(o.marks)} = S /\ Len(o.marks) = Cardinality(S)
                                    /\ \A m \in Range(o.marks) : m[1] \in S => near(m[2], rank(m[1])) >>,
                        << "saved", o.saved = << o.path >> >> >>))

Wins(x, y, m) == Cardinality({d \in DOMAIN x : y[d] > x[d] + m})
Draws(x, y, m) == Cardinality({d \in DOMAIN x : Abs(x[d] - y[d]) <= m})
PlotBad(o) ==
  LET want == {k \in DOMAIN o.scores : k # o.base}
      ok(a) == LET x == o.scores[a.comp] y == o.scores[o.base]
               IN /\ a.counts = << Wins(x, y, o.margin), Draws(x, y, o.margin), Wins(y, x, o.margin) >>
                  /\ Bag(a.points) = Bag([d \in DOMAIN x |-> << x[d], y[d] >>])
                  /\ Range(a.names) = {d \in DOMAIN x : Abs(x[d] - y[d]) > o.above}
  IN Broken(<< << "axes", {a.comp : a \in Range(o.axes)} = want /\ Len(o.axes) = Cardinality(want) >>,
               << "counts", \A a \in Range(o.axes) : a.comp \in want => ok(a) >> >>)
OpBad(o) == CASE o.op = "compare" -> CompareBad(o) [] o.op = "plot" -> PlotBad(o)

Init == c \in 1..Len(T) /\ i = 1 /\ bad = ""
Step == /\ i > 0 /\ T[c].error = "" /\ i <= Len(T[c].ops)
        /\ LET b == OpBad(T[c].ops[i])
           IN bad' = bad \o (IF b = "" THEN "" ELSE " op" \o ToString(i) \o ":" \o T[c].ops[i].op \o b)
        /\ i' = i + 1 /\ UNCHANGED c
End == /\ i > 0 /\ (IF T[c].error # "" THEN TRUE ELSE i = Len(T[c].ops) + 1)
       /\ i' = 0 /\ UNCHANGED << c, bad >>
       /\ Verdict(T[c], IF T[c].error # "" THEN " raised" ELSE bad)
Next == Step \/ End
=============================================================================
