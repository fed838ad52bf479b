------------------------------- MODULE T_C17 -------------------------------
(* A history of the ridge classifier.  State: the training features and labels of the last successful fit.    *)
(*   fit      cols, y: features (columns) and labels of the training series; seen, ly: rows and labels the     *)
(*            ridge classifier was given; cfg, shp: <<expected, found>> options and fitted shapelets           *)
(*   predict  rows: features of the new series; seen: rows shown to the ridge classifier, dec: its decision    *)
(*            values, classes: its classes; out: the labels returned                                           *)
(*   score    y: true labels, pred: labels predict gives, out: the score in millionths                         *)
EXTENDS Trace, Ridge
VARIABLES c, i, st, bad

Unfitted == [fitted |-> FALSE, cols |-> <<>>, y |-> <<>>, ly |-> <<>>]

FitOK(o) ==
  Broken(<< << "shapelets", o.shp[1] = o.shp[2] >>, << "parameters", o.par[1] = o.par[2] >>, << "options", o.cfg[1] = o.cfg[2] >>,
            << "labels", Renamed(o.y, o.ly) >>,
            << "features", /\ Len(o.seen) = Len(o.y)
                           /\ \A r \in 1..Len(o.seen) : Shown(o.cols, Row(o.cols, r), o.seen[r]) >> >>)

PredictOK(o, s) ==
  IF ~s.fitted THEN (IF o.refused THEN "" ELSE " predicts-unfitted")
  ELSE IF o.refused THEN " refused"
  ELSE Broken(<< << "features", /\ Len(o.seen) = Len(o.rows)
                                /\ \A r \in 1..Len(o.rows) : Shown(s.cols, o.rows[r], o.seen[r]) >>,
                 << "labels", /\ Len(o.out) = Len(o.rows) /\ Len(o.dec) = Len(o.rows)
                              /\ \A r \in 1..Len(o.rows) :
                                   o.out[r] \in {NameOf(s.y, s.ly, o.classes[k]) : k \in Answers(o.dec[r])} >> >>)

ScoreOK(o) ==
  LET n == Len(o.y) right == Cardinality({r \in 1..n : o.y[r] = o.pred[r]})
  IN Broken(<< << "score", Abs(o.out * n - right * 1000000) <= n >> >>)

OpOK(o, s) == CASE o.op = "fit" -> FitOK(o) [] o.op = "predict" -> PredictOK(o, s) [] o.op = "score" -> ScoreOK(o)

Init == c \in 1..Len(T) /\ i = 1 /\ bad = "" /\ st = Unfitted
Step == /\ i > 0 /\ T[c].error = "" /\ i <= Len(T[c].ops)
        /\ LET o == T[c].ops[i] b == OpOK(o, st)
           IN /\ bad' = bad \o (IF b = "" THEN "" ELSE " op" \o ToString(i) \o ":" \o o.op \o b)
              /\ st' = IF o.op = "fit" THEN [fitted |-> TRUE, cols |-> o.cols, y |-> o.y, ly |-> o.ly] ELSE st
        /\ i' = i + 1 /\ UNCHANGED c
End == /\ i > 0 /\ (IF T[c].error # "" THEN TRUE ELSE i = Len(T[c].ops) + 1)
       /\ i' = 0 /\ UNCHANGED << c, st, bad >>
       /\ Verdict(T[c], IF T[c].error # "" THEN " raised" ELSE bad)
Next == Step \/ End
=============================================================================
