------------------------------- MODULE T_C15 -------------------------------
(* Recorded fits with n_samples = p / 16 (0: not given).                                                      *)
EXTENDS Trace, Sampler
VARIABLES c, done

Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE
  LET src == [s \in 1..Len(k.shp) |-> {w[1] : w \in Sources(k, k.shp[s])}]
      known == UNION {src[s] : s \in {s \in 1..Len(k.shp) : Cardinality(src[s]) = 1}}
      sub == k.p > 0 /\ k.p < 16
      size == (N(k) * k.p) \div 16
      class(q) == {j \in 1..N(k) : k.y[j] = q}
      \* series the threshold of a shapelet of series i can come from
      tests(i) == IF sub /\ Cardinality(known) = size
                  THEN LET o == (class(k.y[i]) \cap known) \ {i} IN IF o = {} THEN {i} ELSE o
                  ELSE IF k.p > 16 THEN class(k.y[i])
                  ELSE IF sub THEN class(k.y[i])
                  ELSE Tests(k, i)
  IN Broken(<< << "sources", \A s \in 1..Len(k.shp) : src[s] # {} >>,
               << "thresholds", \A s \in 1..Len(k.shp) : \E i \in src[s] : \E j \in tests(i) : ThresholdFrom(k, k.shp[s], j) >>,
               << "number", sub => Cardinality(known) <= size >>,
               << "stratified", sub => \A q \in Range(k.y) : Cardinality(known \cap class(q)) <= -((-Cardinality(class(q)) * k.p) \div 16) >>,
               << "all-used", (k.p \in {0, 16} /\ Len(k.shp) >= 60) => known = 1..N(k) >> >>)

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
=============================================================================
