------------------------------- MODULE Params -------------------------------
(* Which constructor arguments are accepted. *)
EXTENDS Values

Lower(s) ==
  CASE s \in {"AUTO", "Auto"} -> "auto" [] s \in {"Univariate", "UNIVARIATE"} -> "univariate"
    [] s \in {"Multivariate", "MULTIVARIATE"} -> "multivariate"
    [] s \in {"Univariate_Variable", "UNIVARIATE_VARIABLE"} -> "univariate_variable"
    [] s \in {"Multivariate_Variable", "MULTIVARIATE_VARIABLE"} -> "multivariate_variable"
    [] OTHER -> s
Types == {"auto", "univariate", "multivariate", "univariate_variable", "multivariate_variable"}

Collection(v) == v.ty \in {"list", "arr"}
Accepted(p, v) ==
  CASE p = "transform_type" -> Lower(v.s) \in Types
    [] p = "percentiles" -> Collection(v) /\ Len(v.e) = 2 /\ Numbers(v.e) /\ v.e[1].n <= v.e[2].n
    [] p = "shapelet_lengths_bounds" -> v.ty = "none" \/ (Collection(v) /\ Len(v.e) = 2)
    [] p = "lengths_bounds_reduction" -> IsNumber(v) /\ v.n < 1000
    [] p \in {"phase_invariance", "normalize_output", "prime_dilations"} -> IsBool(v)
    [] p \in {"alpha", "proba_norm", "n_shapelets"} -> IsNumber(v)
    [] p = "n_samples" -> v.ty = "none" \/ IsNumber(v)
    [] p = "shapelet_lengths" -> Collection(v) /\ Len(v.e) > 0
    [] p = "n_jobs" -> v.ty = "none" \/ (IsInteger(v) /\ v.n # 0)

\* the number of jobs an accepted n_jobs stands for
Jobs(v, cpus) ==
  IF v.ty = "none" THEN 1
  ELSE LET n == v.n \div 1000
       IN IF n > 0 THEN (IF n < cpus THEN n ELSE cpus) ELSE IF cpus + 1 + n > 1 THEN cpus + 1 + n ELSE 1

\* ---- what is tried: good and bad values of every parameter
Tried ==
  [ transform_type |-> {Str(s) : s \in Types \cup {"AUTO", "Auto", "UNIVARIATE", "Univariate_Variable", "MULTIVARIATE", "Multivariate_Variable",
                                                   "unknown", "", "uni", "univariate ", "multi_variable", "variable"}},
    percentiles |-> {List(<<IntV(5), IntV(10)>>), List(<<IntV(7), IntV(7)>>), List(<<Float(500), Float(10500)>>), Arr(<<IntV(0), IntV(100)>>),
                     Arr(<<Float(2500), Float(97500)>>), List(<<IntV(10), IntV(5)>>), Arr(<<Float(10000), Float(9999)>>), List(<<IntV(5)>>),
                     List(<<IntV(1), IntV(2), IntV(3)>>), List(<<>>), List(<<Str("a"), Str("b")>>), None, IntV(5), Nested(<<IntV(5), IntV(10)>>)},
    shapelet_lengths_bounds |-> {None, List(<<IntV(3), IntV(9)>>), List(<<Float(100), Float(500)>>), Arr(<<IntV(4), IntV(8)>>), List(<<IntV(3)>>),
                                 List(<<IntV(3), IntV(4), IntV(5)>>), List(<<>>)},
    lengths_bounds_reduction |-> {Float(0), Float(500), Float(999), IntV(0), NpFloat(250), Float(1000), IntV(1), Float(1500), Bool(FALSE), Bool(TRUE),
                                  Str("0.5"), None, List(<<Float(500)>>)},
    phase_invariance |-> {Bool(TRUE), Bool(FALSE), IntV(0), IntV(1), Float(1000), Str("True"), None, List(<<Bool(TRUE)>>)},
    normalize_output |-> {Bool(TRUE), Bool(FALSE), IntV(0), IntV(1), Str("False"), None},
    prime_dilations |-> {Bool(TRUE), Bool(FALSE), IntV(0), IntV(1), Str(""), None},
    alpha |-> {Float(500), IntV(0), IntV(1), NpFloat(750), NpInt(1), Bool(TRUE), NpBool(FALSE), Str("0.5"), None, List(<<Float(500)>>)},
    proba_norm |-> {Float(800), IntV(0), IntV(1), NpFloat(250), Bool(FALSE), Str("1"), None, List(<<Float(500)>>)},
    n_shapelets |-> {IntV(1), IntV(10000), NpInt(50), Float(10000), Bool(TRUE), NpBool(TRUE), Str("10"), None, List(<<IntV(5)>>)},
    n_samples |-> {None, Float(500), IntV(1), Float(1500), NpFloat(250), Bool(TRUE), Bool(FALSE), Str("0.5"), List(<<Float(500)>>)},
    shapelet_lengths |-> {List(<<IntV(11)>>), List(<<IntV(3), IntV(5)>>), List(<<Float(100), Float(250)>>), Arr(<<IntV(7), IntV(9)>>), Arr(<<Float(50)>>),
                          List(<<>>), Arr(<<>>), Nested(<<IntV(7)>>), IntV(7), None, Str("7")},
    n_jobs |-> {None, IntV(1), IntV(2), IntV(-1), IntV(-2), IntV(-100000), IntV(100000), NpInt(3), NpInt(-1), IntV(0), NpInt(0), Float(2000), Str("2"),
                List(<<IntV(1)>>)} ]
Names == DOMAIN Tried
AllAccepted(args) == \A p \in DOMAIN args : Accepted(p, args[p])
=============================================================================
