------------------------------- MODULE T_C18 -------------------------------
(* One ensemble, fitted and asked.  models: for every input transformer (they are told apart by a tag),       *)
(*   loo      scripted leave-one-out decision values at the selected regularisation                            *)
(*   fit, ask events in order: << "t-fit" | "t-out" | "r-fit" | "r-out", object, data >>; the data given to     *)
(*            transformer or R_DST, t-out and r-out also with the data returned                                *)
(*   par, cfg expected and found parameters of R_DST and options of the ridge classifier                       *)
(*   cols, seen, rows, asked: features in training, what the ridge classifier was given, then for new data     *)
(*   dec      scripted decision values for the new series                                                      *)
EXTENDS Trace, Ensemble
VARIABLES c, done

Full(cols, row, seen) ==
  IF Len(seen) = Len(cols)
  THEN \A j \in 1..Len(cols) : (row[j] # FAR /\ Varies(cols[j])) => Near(seen[j], ZScore(cols[j], row[j]))
  ELSE Shown(cols, row, seen)

\* the events of a model in training on data x: transformer fitted on and applied to x, R_DST on what comes out
FitChain(m, x) ==
  /\ \E e \in Range(m.fit) : e.ev = "t-fit" /\ e.given = x
  /\ \E e \in Range(m.fit) : e.ev = "t-out" /\ e.given = x
  /\ \E e \in Range(m.fit) : e.ev = "r-fit"
  /\ \A e \in Range(m.fit) : /\ e.ev \in {"t-fit", "t-out"} => e.given = x
                             /\ e.ev \in {"r-fit", "r-out"} => \E f \in Range(m.fit) : f.ev = "t-out" /\ f.made = e.given
  /\ \A e \in Range(m.fit) : e.ev = "r-fit" => e.y = m.y
AskChain(m, z) ==
  /\ \E e \in Range(m.ask) : e.ev = "t-out" /\ e.given = z
  /\ \E e \in Range(m.ask) : e.ev = "r-out"
  /\ \A e \in Range(m.ask) :
       /\ e.ev \in {"t-out", "r-out"}
       /\ e.ev = "t-out" => e.given = z
       /\ e.ev = "r-out" => /\ \E f \in Range(m.ask) : f.ev = "t-out" /\ f.made = e.given
                            /\ \E f \in Range(m.fit) : f.ev = "r-fit" /\ f.who = e.who
ModelBad(k, m) ==
  Broken(<< << "parameters", \A x \in Range(m.par[2]) : x = m.par[1] >>, << "options", m.cfg[1] = m.cfg[2] >>,
            << "training", FitChain(m, k.x) >>, << "ridge-labels", Renamed(k.y, m.ly) >>,
            << "ridge-features", Len(m.seen) = Len(k.y) /\ \A r \in 1..Len(m.seen) : Full(m.cols, Row(m.cols, r), m.seen[r]) >>,
            << "asking", AskChain(m, k.z) >>,
            << "asked-features", Len(m.asked) = Len(m.rows) /\ \A r \in 1..Len(m.asked) : Full(m.cols, m.rows[r], m.asked[r]) >> >>)

Bad(k) ==
  IF k.error # "" THEN " raised"
  ELSE LET ws == [m \in 1..Len(k.models) |-> Weight(k.models[m].loo, k.y, k.aw)]
       IN Broken([m \in 1..Len(k.models) |-> << "model" \o ToString(m) \o ":" \o ModelBad(k, k.models[m]), ModelBad(k, k.models[m]) = "" >>])
          \o Broken(<< << "series", Len(k.out) = k.nz >> >>)
          \o (IF Len(k.out) # k.nz THEN ""
              ELSE Broken([r \in 1..k.nz |-> << "vote" \o ToString(r), k.out[r] \in Elected([m \in 1..Len(ws) |-> k.models[m].dec[r]], ws, k.aw) >>]))

Init == c \in 1..Len(T) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Verdict(T[c], Bad(T[c]))
=============================================================================
