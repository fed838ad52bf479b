----------------------------- MODULE Gen_Params -----------------------------
(* Every call of the constructor with one or two arguments given (two: of different parameters, at most one   *)
(* of them acceptable, and every acceptable pair).                                                            *)
EXTENDS Params, Json
CONSTANT Pairs
VARIABLES args, done

One == UNION {{[q \in {p} |-> v] : v \in Tried[p]} : p \in Names}
Two == UNION {{[q \in {p[1], p[2]} |-> IF q = p[1] THEN v[1] ELSE v[2]] : v \in Tried[p[1]] \X Tried[p[2]]}
              : p \in {p \in Names \X Names : p[1] # p[2]}}
Init == args \in (IF Pairs THEN One \cup Two ELSE One) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED args /\ PrintT("GEN " \o ToJson(args))
\* both answers occur for every parameter
ASSUME \A p \in Names : \E v, w \in Tried[p] : Accepted(p, v) /\ ~Accepted(p, w)
=============================================================================
