------------------------------ MODULE Lifecycle ------------------------------
(* The life of one estimator object as its user sees it.                                                      *)
(*   p: which parameter set (changed by set_params of the seed), tt: what transform_type reads ("auto" or a   *)
(*   kind), det: the kind detected by the last fit under "auto" ("" if none), fit: what the model was fitted  *)
(*   with, as the key "parameters|type|data" of the fresh estimator it must be equal to; "" if not fitted,    *)
(*   "?" after a fit that was refused.                                                                        *)
EXTENDS Integers, Sequences, TLC

New(tt) == [p |-> 1, tt |-> tt, det |-> "", fit |-> ""]

\* transform_type in the sense of the constructor: a kind that was only detected is detected anew
Declared(e) == IF e.det # "" THEN "auto" ELSE e.tt
FitKey(e, d) == ToString(e.p) \o "|" \o Declared(e) \o "|" \o d
UseKey(e, x) == e.fit \o "|" \o x

AfterFit(e, d, kind) ==
  [e EXCEPT !.fit = FitKey(e, d),
            !.tt = IF Declared(e) = "auto" THEN kind ELSE e.tt,
            !.det = IF Declared(e) = "auto" THEN kind ELSE ""]
\* A refused fit says nothing about the model; the next successful one must still be like a fresh one.
AfterRefusedFit(e) == [e EXCEPT !.fit = "?"]
\* Cloning copies the parameters as they read.
AfterClone(e) == [p |-> e.p, tt |-> e.tt, det |-> "", fit |-> ""]
AfterSeed(e) == [e EXCEPT !.p = 3 - e.p]
\* Setting transform_type to "auto" again takes effect with the next fit; the model is not used before.
AfterAuto(e) == [e EXCEPT !.tt = "auto", !.det = "", !.fit = IF @ = "" THEN "" ELSE "?"]
=============================================================================
