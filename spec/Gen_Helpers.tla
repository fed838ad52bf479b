---------------------------- MODULE Gen_Helpers ----------------------------
(* Every small input of the helpers. *)
EXTENDS Helpers, Json
CONSTANTS Shapes, Vals, MaxT, MaxPrime, MaxPairs
VARIABLES call, done
ShapesQ == {<< 1, 1 >>, << 1, 2 >>, << 2, 1 >>, << 3, 1 >>, << 4, 1 >>, << 2, 2 >>, << 1, 3 >>, << 3, 2 >>, << 2, 3 >>}
ShapesT == ShapesQ \cup {<< 5, 1 >>, << 6, 1 >>, << 4, 2 >>, << 1, 4 >>, << 1, 5 >>, << 2, 4 >>}

Matrices == UNION {[1..s[1] -> [1..s[2] -> Vals]] : s \in Shapes}
Calls == {[f |-> "unique", m |-> m] : m \in Matrices}
    \cup {[f |-> "prime", n |-> n] : n \in 0..MaxPrime}
    \cup {[f |-> "windows", n |-> n, l |-> l, d |-> d, phase |-> p] :
             n \in 1..MaxT, l \in 1..MaxT, d \in 1..MaxT, p \in BOOLEAN}
    \cup {[f |-> "pairs", x |-> x, y |-> y] : x \in [1..MaxPairs -> 1..2], y \in [1..MaxPairs -> 1..3]}
Valid(k) == k.f = "windows" => (k.phase \/ k.l = 1 \/ (k.l - 1) * k.d < k.n)
Init == call \in {k \in Calls : Valid(k)} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED call /\ PrintT("GEN " \o ToJson(call))

\* the definitions are consistent: counts add up, distinct rows are sorted and are found where they are said to be
UniqueOK == call.f = "unique" =>
  LET u == Unique(call.m)
  IN /\ Sum(u[3]) = Len(call.m)
     /\ \A k \in DOMAIN u[1] : call.m[u[2][k] + 1] = u[1][k]
     /\ \A k \in 1..(Len(u[1]) - 1) : RowLess(u[1][k], u[1][k + 1])
\* every point starts exactly one window under phase invariance, and windows stay inside otherwise
WindowsOK == call.f = "windows" =>
  \A i \in 1..NWin(call.n, call.l, call.d, call.phase) :
    LET p == WPos(call.n, i, call.l, call.d)
    IN /\ p[1] = i /\ \A j \in DOMAIN p : p[j] \in 1..call.n
       /\ ~call.phase => \A j \in 1..(Len(p) - 1) : p[j + 1] = p[j] + call.d
PairsOK == call.f = "pairs" => Range(Pairs(call.x, call.y)) = {<< call.x[i], call.y[i] >> : i \in DOMAIN call.x}
=============================================================================
