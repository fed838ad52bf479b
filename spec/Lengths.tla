------------------------------- MODULE Lengths -------------------------------
(* The configuration of shapelet lengths.  A configuration is a record with how: "int", "frac" (list of      *)
(* lengths, or of fractions in 1/16), "bint", "bfrac" (bounds), e: the numbers, red: reduction in 1/16.       *)
EXTENDS Num

\* lengths asked for, on series of m timestamps
Asked(g, m) ==
  CASE g.how = "int" -> {g.e[i] : i \in 1..Len(g.e)}
    [] g.how = "frac" -> {(g.e[i] * m) \div 16 : i \in 1..Len(g.e)}
    [] OTHER ->
       LET b0 == IF g.how = "bint" THEN g.e[1] ELSE (g.e[1] * m) \div 16
           b1 == IF g.how = "bint" THEN g.e[2] ELSE (g.e[2] * m) \div 16
           lo == Max2(3, b0)
           hi == Max2(lo, b1)
           n == hi - lo + 1
           k == (n * g.red) \div 16
       IN IF n > 3 /\ k > 0 THEN {lo + j * (n \div k) : j \in 0..((n - 1) \div (n \div k))} ELSE lo..hi
Refused(g, m) == \E l \in Asked(g, m) : l < 2
Warned(g, m) == \E l \in Asked(g, m) : l > m
Used(g, m) == {IF l > m THEN Max2(2, m \div 2) ELSE l : l \in Asked(g, m)}
=============================================================================
