------------------------------- MODULE T_C21 -------------------------------
(* Cross validation, its splitter and grid search on one data set.                                             *)
(*   splits   the data of split 0 (the archive) and of split i (the stratified resample with seed i):          *)
(*            << train items, test items >>, items << series, label >>                                          *)
(*   ops      in order                                                                                         *)
(*     cv     events of the pipeline << "fit", items >>, << "predict", series, predictions >>; rows, columns,   *)
(*            right, missed (the scores), times of the table                                                    *)
(*     pos    pool of series, positions << train, test >> per split                                            *)
(*     grid   pool items, positions, number of candidates and results                                          *)
EXTENDS Trace, Resample
VARIABLES c, i, bad

Series1(items) == [j \in DOMAIN items |-> items[j][1]]

\* what scoring predictions p for true labels y gives
Right(y, p) == Cardinality({j \in DOMAIN y : y[j] = p[j]})
Missed(y, p, a) == Cardinality({j \in DOMAIN y : y[j] = a /\ p[j] # a})

CvBad(k, o) ==
  LET n == o.n
      want == FlattenSeq([s \in 1..n |-> << << "fit", k.splits[s][1] >>, << "predict", Series1(k.splits[s][2]) >> >>])
      got == [e \in DOMAIN o.events |-> << o.events[e].ev, o.events[e].data >>]
      pred(s) == o.events[2 * s].out
      y(s) == Labels(k.splits[s][2])
  IN IF Len(got) # 2 * n THEN " events"
     ELSE Broken([e \in 1..(2 * n) |-> << "event" \o ToString(e), got[e] = want[e] >>])
          \o Broken(<< << "rows", o.rows = [s \in 1..n |-> s - 1] >>, << "columns", Range(o.columns) = Range(o.scorers) \cup {"time"} >>,
                       << "count", Len(o.table) = n >> >>)
          \o (IF Len(o.table) # n THEN ""
              ELSE Broken([s \in 1..n |-> << "scores" \o ToString(s),
                   /\ Len(y(s)) = Len(pred(s))
                   /\ "right" \in Range(o.scorers) => Abs(o.table[s].right * Len(y(s)) - 1000000 * Right(y(s), pred(s))) <= Len(y(s))
                   /\ "missed" \in Range(o.scorers) => o.table[s].missed = Missed(y(s), pred(s), o.class)
                   /\ o.table[s].time >= 0 >>]))

PosBad(k, pool, positions, n) ==
  LET N == Len(pool)
      ok(s) == LET tr == positions[s][1] te == positions[s][2]
               IN /\ Range(tr \o te) = 0..(N - 1) /\ Len(tr) + Len(te) = N
                  /\ [j \in DOMAIN tr |-> pool[tr[j] + 1]] = Series1(k.splits[s][1])
                  /\ [j \in DOMAIN te |-> pool[te[j] + 1]] = Series1(k.splits[s][2])
  IN IF Len(positions) # n THEN " number-of-splits" ELSE Broken([s \in 1..n |-> << "split" \o ToString(s), ok(s) >>])

OpBad(k, o) ==
  CASE o.op = "cv" -> CvBad(k, o)
    [] o.op = "pos" -> PosBad(k, o.pool, o.positions, o.n) \o (IF o.said = o.n THEN "" ELSE " get_n_splits")
    [] o.op = "grid" -> (IF o.pool = k.splits[1][1] \o k.splits[1][2] THEN "" ELSE " pool")
                        \o PosBad(k, Series1(o.pool), o.positions, o.n)
                        \o (IF o.results = o.candidates THEN "" ELSE " results")

SplitsOK(k) == \A s \in 1..Len(k.splits) : Partition(k.splits[1], k.splits[s]) /\ Stratified(k.splits[1], k.splits[s])

Init == c \in 1..Len(T) /\ i = 1 /\ bad = ""
Step == /\ i > 0 /\ T[c].error = "" /\ i <= Len(T[c].ops)
        /\ LET b == OpBad(T[c], T[c].ops[i])
           IN bad' = bad \o (IF b = "" THEN "" ELSE " op" \o ToString(i) \o ":" \o T[c].ops[i].op \o b)
        /\ i' = i + 1 /\ UNCHANGED c
End == /\ i > 0 /\ (IF T[c].error # "" THEN TRUE ELSE i = Len(T[c].ops) + 1)
       /\ i' = 0 /\ UNCHANGED << c, bad >>
       /\ Verdict(T[c], IF T[c].error # "" THEN " raised" ELSE bad \o (IF SplitsOK(T[c]) THEN "" ELSE " splits"))
Next == Step \/ End
=============================================================================
