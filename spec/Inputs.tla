------------------------------- MODULE Inputs -------------------------------
(* What a transformer accepts.  An input is described by                                                      *)
(*   coll: "array" (numeric array), "list" or "object" (of arrays); nd: number of dimensions of the array, or *)
(*   of the elements plus one; ch, len: channels and lengths of the series (when nd = 3); n: how many.        *)
EXTENDS Num

Sound(x) ==
  /\ x.nd = 3 /\ x.n > 0
  /\ \A j \in 1..x.n : x.ch[j] = x.ch[1] /\ x.ch[j] > 0
  /\ \A j \in 1..x.n : x.len[j] > 2

Kinds == {"univariate", "multivariate", "univariate_variable", "multivariate_variable"}
Detect(x) ==
  IF x.coll = "array" THEN IF x.ch[1] > 1 THEN "multivariate" ELSE "univariate"
  ELSE IF x.ch[1] > 1 THEN "multivariate_variable" ELSE "univariate_variable"

\* by a model fitted on nch channels whose longest shapelet spans `span` points
Accepts(x, nch, span, phase) ==
  /\ Sound(x)
  /\ x.ch[1] = nch
  /\ ~phase => \A j \in 1..x.n : x.len[j] >= span
=============================================================================
