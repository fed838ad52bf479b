------------------------------- MODULE Trace -------------------------------
(* Base of the trace specifications T_Cnn.  A trace file holds one recorded behaviour ("case") of the real    *)
(* code per line.  Every case is one initial state; its only step judges it.                                  *)
EXTENDS Series, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

\* clauses: sequence of << name, holds >> -> the names that do not hold, in order
Broken(clauses) == FoldLeft(LAMBDA a, b : IF b[2] THEN a ELSE a \o " " \o b[1], "", clauses)

Verdict(c, bad) == PrintT("VERDICT " \o c.id \o (IF bad = "" THEN " ok" ELSE " bad" \o bad))
=============================================================================
