---------------------------- MODULE Gen_Lifecycle ----------------------------
(* Every history of up to Depth operations on one estimator that ends in an operation with a visible outcome. *)
(* Design properties of the life cycle are checked on the way.                                                *)
EXTENDS Lifecycle, Json, FiniteSets
CONSTANTS Depth, Data, Mutant
VARIABLES e, h, lastfit

Kind(d) == CASE d = "A" -> "k1" [] d = "B" -> "k2" [] OTHER -> "k1"
Ops == {<<"fit", d>> : d \in Data} \cup {<<"use", d>> : d \in Data} \cup
       {<<"clone", "">>, <<"seed", "">>, <<"bad", "">>, <<"auto", "">>}

Init == e = New("auto") /\ h = <<>> /\ lastfit = ""

Enabled(op) ==
  /\ h = <<>> => op[1] \in {"fit", "clone"}
  /\ op[1] = "use" => e.fit \notin {"?"} /\ Cardinality({j \in 1..Len(h) : h[j] = op}) < 2
  /\ op[1] \in {"clone", "seed", "bad", "auto"} => \A j \in 1..Len(h) : h[j] # op

Step(op) ==
  CASE op[1] = "fit" -> IF Mutant = "keeptype" /\ e.tt # "auto" THEN [e EXCEPT !.fit = ToString(e.p) \o "|" \o e.tt \o "|" \o op[2]]
                        ELSE AfterFit(e, op[2], Kind(op[2]))
    [] op[1] = "bad" -> AfterRefusedFit(e)
    [] op[1] = "clone" -> AfterClone(e)
    [] op[1] = "seed" -> AfterSeed(e)
    [] op[1] = "auto" -> AfterAuto(e)
    [] OTHER -> e

Next == /\ Len(h) < Depth
        /\ \E op \in Ops :
             /\ Enabled(op)
             /\ e' = Step(op) /\ h' = Append(h, op)
             /\ lastfit' = CASE op[1] = "fit" -> FitKey(e, op[2]) [] op[1] \in {"clone", "bad"} -> "" [] OTHER -> lastfit
             /\ (Mutant = "none" /\ Len(h') = Depth /\ op[1] \in {"use", "fit"}) => PrintT("GEN " \o ToJson(h'))

\* a fit forgets the past: what the model equals is given by the parameters and the data of the last fit alone
Forgets == e.fit \notin {"", "?"} => e.fit = lastfit
\* and under "auto" the type used is always that of the data of the last fit
Redetects == (e.fit \notin {"", "?"} /\ e.det # "") => e.tt = e.det
=============================================================================
