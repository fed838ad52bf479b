------------------------------- MODULE T_C25 -------------------------------
(* Input transformers and scalers.  Series are sequences of channels.  In `names` operations every channel is  *)
(* named by its content and `table` gives, as an uninterpreted function, the name of its transform.            *)
EXTENDS Trace, Ridge
VARIABLES c, i, st, bad

RECURSIVE Diff(_, _)
Diff(s, n) == IF n = 0 THEN s ELSE Diff([t \in 1..(Len(s) - 1) |-> s[t + 1] - s[t]], n - 1)
Each(X, F(_)) == [a \in DOMAIN X |-> [ch \in DOMAIN X[a] |-> F(X[a][ch])]]
SameShape(X, Y) == Len(X) = Len(Y) /\ \A a \in DOMAIN X : Len(X[a]) = Len(Y[a]) /\ \A ch \in DOMAIN X[a] : Len(X[a][ch]) = Len(Y[a][ch])
Lookup(table, x) == LET S == {p \in Range(table) : p[1] = x} IN IF S = {} THEN 0 ELSE (CHOOSE p \in S : TRUE)[2]

\* (x - min) / (max - min) in thousandths
Ranged(col, x) == DivNear((x - MinSeq(col)) * 1000, MaxSeq(col) - MinSeq(col))
ShownRange(cols, row, seen) ==
  LET kept == Kept(cols)
  IN Len(seen) = Len(kept) /\ \A j \in 1..Len(kept) : row[kept[j]] = FAR \/ Abs(seen[j] - Ranged(cols[kept[j]], row[kept[j]])) <= 3

OpOK(o, s) ==
  CASE o.op = "derivate" -> o.order \in 1..4 /\ o.out = Each(o.x, LAMBDA ch : Diff(ch, o.order))
    [] o.op = "raw" -> o.out = o.x
    [] o.op = "znorm" -> SameShape(o.x, o.out) /\ \A a \in DOMAIN o.x : \A ch \in DOMAIN o.x[a] :
                           LET w == ZNorm(o.x[a][ch]) IN \A t \in DOMAIN w : Abs(w[t] - o.out[a][ch][t]) <= 4
    [] o.op = "names" -> o.option /\ o.out = Each(o.x, LAMBDA ch : Lookup(o.table, ch))
    [] o.op = "fit" -> TRUE
    [] o.op = "scale" -> /\ Len(o.out) = Len(o.rows)
                         /\ \A r \in DOMAIN o.rows : IF o.how = "standard" THEN Shown(s, o.rows[r], o.out[r]) ELSE ShownRange(s, o.rows[r], o.out[r])
OpBad(o, s) == (IF OpOK(o, s) THEN "" ELSE " " \o o.op) \o (IF o.before = o.after THEN "" ELSE " input-changed")

Init == c \in 1..Len(T) /\ i = 1 /\ bad = "" /\ st = <<>>
Step == /\ i > 0 /\ T[c].error = "" /\ i <= Len(T[c].ops)
        /\ LET o == T[c].ops[i] b == OpBad(o, st)
           IN /\ bad' = bad \o (IF b = "" THEN "" ELSE " op" \o ToString(i) \o ":" \o b)
              /\ st' = IF o.op = "fit" THEN o.cols ELSE st
        /\ i' = i + 1 /\ UNCHANGED c
End == /\ i > 0 /\ (IF T[c].error # "" THEN TRUE ELSE i = Len(T[c].ops) + 1)
       /\ i' = 0 /\ UNCHANGED << c, st, bad >>
       /\ Verdict(T[c], IF T[c].error # "" THEN " raised" ELSE bad)
Next == Step \/ End
=============================================================================
