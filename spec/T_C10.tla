------------------------------- MODULE T_C10 -------------------------------
(* A recorded history, replayed operation by operation on the life cycle: the outcome of every operation is   *)
(* that of the fresh estimator the abstract state names, and the parameters read as the state says.           *)
EXTENDS Trace, Lifecycle
VARIABLES c, i, e, bad

Kind(k, d) == IF k.tracks THEN k.kinds[d] ELSE "auto"

After(k, o) ==
  CASE o.op = "fit" -> IF o.out = k.refs[FitKey(e, o.arg)] /\ o.out \in {"ValueError", "TypeError"} THEN AfterRefusedFit(e)
                       ELSE AfterFit(e, o.arg, Kind(k, o.arg))
    [] o.op = "bad" -> AfterRefusedFit(e)
    [] o.op = "clone" -> AfterClone(e)
    [] o.op = "seed" -> AfterSeed(e)
    [] o.op = "auto" -> AfterAuto(e)
    [] OTHER -> e

OutOK(k, o) ==
  CASE o.op = "fit" -> o.out = k.refs[FitKey(e, o.arg)]
    [] o.op = "use" -> IF e.fit = "?" THEN TRUE
                       ELSE IF e.fit = "" THEN o.out \in {"NotFittedError", "ValueError", "AttributeError"}
                       ELSE o.out = k.refs[UseKey(e, o.arg)]
    [] o.op = "bad" -> o.out = "ValueError"
    [] OTHER -> TRUE

ParamsOK(k, o, f) == o.ps = k.pd[f.p] /\ (f.fit # "?" => o.tt = f.tt)

Init == /\ c \in 1..Len(T) /\ i = 1 /\ bad = ""
        /\ e = New(IF T[c].error = "" THEN T[c].tt0 ELSE "auto")
Step == /\ i > 0 /\ T[c].error = "" /\ i <= Len(T[c].ops)
        /\ LET k == T[c] o == k.ops[i] f == After(k, o)
           IN /\ e' = f
              /\ bad' = bad \o (IF OutOK(k, o) THEN "" ELSE " op" \o ToString(i) \o ":" \o o.op)
                            \o (IF ParamsOK(k, o, f) THEN "" ELSE " op" \o ToString(i) \o ":parameters")
        /\ i' = i + 1 /\ UNCHANGED c
End == /\ i > 0 /\ (IF T[c].error # "" THEN TRUE ELSE i = Len(T[c].ops) + 1)
       /\ i' = 0 /\ UNCHANGED << c, e, bad >>
       /\ Verdict(T[c], IF T[c].error # "" THEN " raised" ELSE bad)
Next == Step \/ End
=============================================================================
