----------------------------- MODULE MC_Interp -----------------------------
(* Choosing the shapelets to show: features are visited from the largest importance down, and a shapelet is     *)
(* shown at the first of its features.  Ties between features may be visited in any order.                     *)
EXTENDS Interp
CONSTANTS Mutant, NS, N
VARIABLES imp, left, shown, pc

Init == /\ imp \in [1..(3 * NS) -> -1..1] /\ left = 1..(3 * NS) /\ shown = <<>> /\ pc = "pick"
Weight(f) == CASE Mutant = "abs" -> Abs(imp[f]) [] Mutant = "ascending" -> -imp[f] [] OTHER -> imp[f]
Owner(f) == IF Mutant = "owner" THEN ((f - 1) % NS) + 1 ELSE (f - 1) \div 3 + 1
Pick == /\ pc = "pick" /\ Len(shown) < N /\ left # {}
        /\ \E f \in {f \in left : \A g \in left : Weight(f) >= Weight(g)} :
             /\ left' = left \ {f}
             /\ shown' = IF Mutant # "dup" /\ Owner(f) \in {shown[j] : j \in DOMAIN shown} THEN shown ELSE Append(shown, Owner(f))
        /\ UNCHANGED << imp, pc >>
Stop == pc = "pick" /\ (Len(shown) = N \/ left = {}) /\ pc' = "done" /\ UNCHANGED << imp, left, shown >>
Next == Pick \/ Stop
ShowsTheBest == pc = "done" => ShowsBest(shown, imp, N)
=============================================================================
