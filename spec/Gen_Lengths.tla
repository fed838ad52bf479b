----------------------------- MODULE Gen_Lengths -----------------------------
(* Every configuration of shapelet lengths within the bounds, with the series length it is applied to.        *)
EXTENDS Lengths, Json
CONSTANTS Ints, Fracs, Reds, Ms
VARIABLES g, m, done

Lists(S) == {<<a>> : a \in S} \cup {<<a, b>> : a \in S, b \in S}
Configs ==
       {[how |-> "int", e |-> e, red |-> 8] : e \in Lists(Ints \cup {0, 1, 30})}
  \cup {[how |-> "frac", e |-> e, red |-> 8] : e \in Lists(Fracs)}
  \cup {[how |-> "bint", e |-> <<a, b>>, red |-> r] : a \in Ints, b \in Ints, r \in Reds}
  \cup {[how |-> "bfrac", e |-> <<a, b>>, red |-> r] : a \in Fracs, b \in Fracs, r \in Reds}
Init == g \in Configs /\ m \in Ms /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<g, m>> /\ PrintT("GEN " \o ToJson([g |-> g, m |-> m]))

\* what is used always fits on the series, and a reduction keeps the lowest length and only drops lengths
Fits == Refused(g, m) \/ \A l \in Used(g, m) : l >= 2 /\ l <= m
Reduces == g.how \in {"bint", "bfrac"} =>
             LET all == Asked([g EXCEPT !.red = 0], m) IN Asked(g, m) \subseteq all /\ MinSet(all) \in Asked(g, m)
NotEmpty == Asked(g, m) # {}
=============================================================================
