------------------------------- MODULE T_C22 -------------------------------
(* What the interpreter draws of a model.                                                                      *)
(*   shp, phase: the shapelets; th: 10000 * their thresholds                                                     *)
(*   ops  plot     s; v, d, nm, th: what is drawn (th in hundredths)                                            *)
(*        match    s, x; line, pos, vals: the series drawn, the positions and heights (hundredths) of the match  *)
(*        vector   s, x; dv: the vector drawn; th: the line, over span                                          *)
(*        importance  k, coefs, cols: features of the training series; imp: the answer                          *)
(*        best     k, n, coefs, cols, y, X, feats: features of X by column; figs: what each figure shows         *)
(*        refused  want, got                                                                                    *)
EXTENDS Trace, Interp
VARIABLES c, i, bad

Used(cols) == [f \in DOMAIN cols |-> Cardinality(Range(cols[f])) > 1]

ShapeOK(k, s, o) ==
  LET sh == k.shp[s]
  IN /\ o.v = sh.v[1] /\ o.d = sh.d /\ o.nm = sh.nm
     /\ Abs(o.th * 100 - k.th[s]) <= 51

PlotBad(k, o) == Broken(<< << "shapelet", ShapeOK(k, o.s, o) >> >>)
MatchBad(k, o) == Broken(<< << "series", o.line = o.x >>, << "match", MatchOK(o.x, k.shp[o.s], k.phase, o.pos, o.vals) >> >>)
VectorBad(k, o) ==
  Broken(<< << "vector", VectorOK(o.x, k.shp[o.s], k.phase, o.dv) >>, << "threshold", Abs(o.th - k.th[o.s]) <= 1 >>,
            << "span", o.span = << 0, NWin(Len(o.x), k.shp[o.s].l, k.shp[o.s].d, k.phase) >> >> >>)
ImportanceBad(o) ==
  LET used == Used(o.cols)
  IN IF \A r \in DOMAIN o.coefs : Len(o.coefs[r]) = Cardinality({f \in DOMAIN used : used[f]})
     THEN Broken(<< << "importance", o.imp = Importance(o.coefs, used, o.k) >> >>)
     ELSE " coefficients"

BestBad(k, o) ==
  LET imp == Importance(o.coefs, Used(o.cols), o.k)
      mine == [j \in DOMAIN o.y |-> o.y[j] = o.k - 1]
      \* shapelets a figure may stand for
      who(g) == {s \in DOMAIN k.shp :
                   /\ ShapeOK(k, s, g)
                   /\ g.boxes = [b \in 1..3 |-> o.feats[3 * s - 3 + b]]}
      drawnOK(g, s) ==
        /\ Len(g.on) = 2 /\ Len(g.vec) = 2
        /\ \A d \in Range(g.on) : /\ \E j \in DOMAIN o.X : o.X[j] = d.line /\ mine[j] = d.mine
                                  /\ MatchOK(d.line, k.shp[s], k.phase, d.pos, d.vals)
        /\ {d.mine : d \in Range(g.on)} = {TRUE, FALSE} /\ {d.mine : d \in Range(g.vec)} = {TRUE, FALSE}
        /\ \A d \in Range(g.vec) :
             /\ \E j \in DOMAIN o.X : mine[j] = d.mine /\ VectorOK(o.X[j], k.shp[s], k.phase, d.dv)
             /\ Abs(d.th - k.th[s]) <= 1
  IN Broken(<< << "figures", Len(o.figs) = Min2(o.n, Len(k.shp)) >> >>)
     \o Broken([j \in DOMAIN o.figs |-> << "figure" \o ToString(j),
                  /\ o.figs[j].split = mine
                  /\ \E s \in who(o.figs[j]) : drawnOK(o.figs[j], s) /\ (j <= Len(k.shp) => Best3(imp, s) = Ranked(imp)[j]) >>])

OpBad(k, o) == CASE o.op = "plot" -> PlotBad(k, o) [] o.op = "match" -> MatchBad(k, o) [] o.op = "vector" -> VectorBad(k, o)
                 [] o.op = "importance" -> ImportanceBad(o) [] o.op = "best" -> BestBad(k, o)
                 [] o.op = "refused" -> (IF o.want = o.got THEN "" ELSE " " \o o.got)

Init == c \in 1..Len(T) /\ i = 1 /\ bad = ""
Step == /\ i > 0 /\ T[c].error = "" /\ i <= Len(T[c].ops)
        /\ LET b == OpBad(T[c], T[c].ops[i])
           IN bad' = bad \o (IF b = "" THEN "" ELSE " op" \o ToString(i) \o ":" \o T[c].ops[i].op \o b)
        /\ i' = i + 1 /\ UNCHANGED c
End == /\ i > 0 /\ (IF T[c].error # "" THEN TRUE ELSE i = Len(T[c].ops) + 1)
       /\ i' = 0 /\ UNCHANGED << c, bad >>
       /\ Verdict(T[c], IF T[c].error # "" THEN " raised" ELSE bad)
Next == Step \/ End
=============================================================================
