------------------------------- MODULE T_C24 -------------------------------
(* One archive data set (train, test: series; ytrain, ytest: labels) loaded several times.                      *)
EXTENDS Trace, Archive
VARIABLES c, i, bad

\* a test label that no training series has has no code: the loader refuses, or at least leaves the training codes alone
Unseen(k) == Range(k.ytest) \ Range(k.ytrain) # {}

SplitBad(k, o) ==
  IF o.raised # "" THEN (IF Unseen(k) /\ o.raised = "ValueError" THEN "" ELSE " refused")
  ELSE
  Broken(<< << "train", AllLoaded(k.train, o.train, o.norm) >>, << "test", AllLoaded(k.test, o.test, o.norm) >>,
            << "ytrain", o.ytrain = Codes(k.ytrain, k.ytrain) >>, << "ytest", IF Unseen(k) THEN TRUE ELSE o.ytest = Codes(k.ytrain, k.ytest) >>,
            << "min_len", o.min_len = Min2(ShortestLen(k.train), ShortestLen(k.test)) >>,
            << "kind", \A x \in Range(o.kinds) : x = k.kind >> >>)
WholeBad(k, o) ==
  Broken(<< << "series", AllLoaded(k.train \o k.test, o.train, o.norm) >>,
            << "labels", o.ytrain = Codes(k.ytrain, k.ytrain \o k.ytest) >>,
            << "kind", \A x \in Range(o.kinds) : x = k.kind >> >>)
OpBad(k, o) == CASE o.op = "split" -> SplitBad(k, o) [] o.op = "whole" -> WholeBad(k, o)

Init == c \in 1..Len(T) /\ i = 1 /\ bad = ""
Step == /\ i > 0 /\ T[c].error = "" /\ i <= Len(T[c].ops)
        /\ LET b == OpBad(T[c], T[c].ops[i])
           IN bad' = bad \o (IF b = "" THEN "" ELSE " op" \o ToString(i) \o ":" \o T[c].ops[i].op \o b)
        /\ i' = i + 1 /\ UNCHANGED c
End == /\ i > 0 /\ (IF T[c].error # "" THEN TRUE ELSE i = Len(T[c].ops) + 1)
       /\ i' = 0 /\ UNCHANGED << c, bad >>
       /\ Verdict(T[c], IF T[c].error # "" THEN " raised" ELSE bad)
Next == Step \/ End
=============================================================================
