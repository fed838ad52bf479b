----------------------------- MODULE MC_Sampler -----------------------------
(* The sampler as a process: every dilation is handled by its own iteration of a parallel loop; shapelets of  *)
(* one dilation are drawn in order, each placed on a free position or, if there is none, dropped.             *)
EXTENDS Sampler
CONSTANTS NS, Len0, Lens, Dils, AL, Draws, Channels, Mutant
VARIABLES plan,      \* dilation -> sequence of lengths to draw
          chosen,    \* dilation -> sequence of outcomes so far: <<series, channels, position, length>> or <<0>> (dropped)
          marks

Nwin(l, d) == NWin(Len0, l, d, FALSE)
Plans == UNION {[1..k -> Lens] : k \in 1..Draws}
M(d) == MinSeq(plan[d])
Chs == (SUBSET (1..Channels)) \ {{}}
Uni1 == Channels = 1

Init == /\ plan \in [Dils -> Plans]
        /\ \A d \in Dils : \A k \in 1..Len(plan[d]) : Nwin(plan[d][k], d) > 0
        /\ chosen = [d \in Dils |-> <<>>]
        /\ marks = {}

MarksOf(d, i, chs, p, l) ==
  CASE Mutant = "oneside" -> {<<FALSE, d, i, c, (p + j * d) % Len0>> : c \in chs, j \in 0..(l - Reserve(AL, M(d)) - 1)}
    [] Mutant = "nostep" -> {<<FALSE, d, i, c, q % Len0>> : c \in chs, q \in {p + j : j \in 0..(l - Reserve(AL, M(d)) - 1)}}
    [] Mutant = "first" -> {<<FALSE, d, i, c, p>> : c \in {MinSet(chs)}}
    [] OTHER -> AddMarks({}, FALSE, d, i, chs, p, l, AL, M(d), Len0)

Next == \E d \in Dils :
  /\ Len(chosen[d]) < Len(plan[d])
  /\ LET l == plan[d][Len(chosen[d]) + 1]
     IN \E chs \in Chs :
          LET free == {<<i, p>> \in (1..NS) \X (0..(Len0 - 1)) : p \in Free(marks, Uni1, FALSE, d, i, chs, AL, Nwin(l, d))}
          IN IF free = {} THEN chosen' = [chosen EXCEPT ![d] = Append(@, <<0>>)] /\ UNCHANGED marks
             ELSE \E w \in free :
                    /\ chosen' = [chosen EXCEPT ![d] = Append(@, <<w[1], chs, w[2], l>>)]
                    /\ marks' = marks \cup MarksOf(d, w[1], chs, w[2], l)
  /\ UNCHANGED plan

Points(p, l, d) == {p + j * d : j \in 0..(l - 1)}
\* two univariate windows drawn with one dilation share at most the reserve (plus what the later one is longer by)
Overlap ==
  Uni1 => \A d \in Dils : \A a, b \in 1..Len(chosen[d]) :
     (a < b /\ chosen[d][a] # <<0>> /\ chosen[d][b] # <<0>> /\ chosen[d][a][1] = chosen[d][b][1]) =>
       LET x == chosen[d][a] y == chosen[d][b]
       IN x[4] > Reserve(AL, M(d)) =>
            Cardinality(Points(x[3], x[4], d) \cap Points(y[3], y[4], d)) <= Reserve(AL, M(d)) + Max2(0, y[4] - x[4])
\* with alpha = 1 no two windows of one dilation start at the same point of the same series on all their channels
Distinct ==
  AL = 8 => \A d \in Dils : \A a, b \in 1..Len(chosen[d]) :
     (a < b /\ chosen[d][a] # <<0>> /\ chosen[d][b] # <<0>> /\ chosen[d][a][1] = chosen[d][b][1]
        /\ chosen[d][a][2] \cap chosen[d][b][2] # {}) => chosen[d][a][3] # chosen[d][b][3]
\* a shapelet is only dropped when the window could start nowhere: the first of a dilation never is
FirstPlaced == \A d \in Dils : Len(chosen[d]) > 0 => chosen[d][1] # <<0>>
\* iterations of the parallel loop never touch the marks of another dilation
Separate == \A m \in marks : Len(chosen[m[2]]) > 0
=============================================================================
