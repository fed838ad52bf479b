------------------------------- MODULE MC_Fit -------------------------------
(* The parallel fit.  Its iterations are the dilations: each takes its seed, and then draws, one after the    *)
(* other, the positions of its shapelets outside of what its shapelets marked in the mask of the dilation.     *)
(* Threads own a generator each and a contiguous share of the iterations, in order; they interleave at every   *)
(* access to a generator, to the mask or to the results.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NThreads, Dil, Mutant      \* Dil[d]: number of shapelets of dilation d
D1 == << 2, 1, 2 >>
D2 == << 2, 2 >>
D3 == << 3, 2, 3, 1 >>
VARIABLES owner, cur, pc, gen, drawn, seen, mask, res

Ds == DOMAIN Dil
Th == 1..NThreads
Cells == {<< d, k >> : d \in Ds, k \in 1..3}
Real == {x \in Cells : x[2] <= Dil[x[1]]}
M(d) == IF Mutant = "sharedmask" THEN 1 ELSE d
G(t) == IF Mutant = "onegenerator" THEN 1 ELSE t
Cell(d, k) == IF Mutant = "slot" THEN << 1, k >> ELSE << d, k >>
\* thread t's generator before the loop: only the caller's (thread 1) is known
Fresh(t) == << -t, 0 >>

Init == /\ owner \in {f \in [Ds -> Th] : \A a, b \in Ds : a < b => f[a] <= f[b]}
        /\ cur = [t \in Th |-> 0] /\ pc = [d \in Ds |-> 0]
        /\ gen = [t \in Th |-> Fresh(t)]
        /\ drawn = [d \in Ds |-> << 0, 0 >>] /\ seen = [d \in Ds |-> {}]
        /\ mask = [d \in Ds |-> {}] /\ res = [x \in Cells |-> << >>]

\* pc: 0 not begun, 3k+1 about to draw shapelet k+1, 3k+2 about to look at the mask, 3k+3 about to store and mark
Mine(t) == {d \in Ds : owner[d] = t /\ pc[d] = 0}
Over(d) == pc[d] = 3 * Dil[d] + 1
Begin(t) == /\ cur[t] = 0 /\ Mine(t) # {}
            /\ LET d == CHOOSE x \in Mine(t) : \A y \in Mine(t) : x <= y
               IN /\ cur' = [cur EXCEPT ![t] = d] /\ pc' = [pc EXCEPT ![d] = 1]
                  /\ gen' = CASE Mutant = "unseeded" -> gen
                              [] Mutant = "lateseed" -> [gen EXCEPT ![G(t)] = << gen[G(t)][1] * 10 + gen[G(t)][2], 0 >>]
                              [] OTHER -> [gen EXCEPT ![G(t)] = << d, 0 >>]
            /\ UNCHANGED << owner, drawn, seen, mask, res >>
Draw(t) == /\ cur[t] # 0 /\ LET d == cur[t] IN
              /\ pc[d] % 3 = 1 /\ ~Over(d)
              /\ drawn' = [drawn EXCEPT ![d] = gen[G(t)]]
              /\ gen' = [gen EXCEPT ![G(t)] = << @[1], @[2] + 1 >>]
              /\ pc' = [pc EXCEPT ![d] = @ + 1]
           /\ UNCHANGED << owner, cur, seen, mask, res >>
Look(t) == /\ cur[t] # 0 /\ LET d == cur[t] IN
              /\ pc[d] % 3 = 2
              /\ seen' = [seen EXCEPT ![d] = mask[M(d)]]
              /\ pc' = [pc EXCEPT ![d] = @ + 1]
           /\ UNCHANGED << owner, cur, gen, drawn, mask, res >>
Keep(t) == /\ cur[t] # 0 /\ LET d == cur[t] k == pc[d] \div 3 IN
              /\ pc[d] % 3 = 0 /\ pc[d] > 0
              /\ res' = [res EXCEPT ![Cell(d, k)] = << drawn[d], seen[d] >>]
              /\ mask' = [mask EXCEPT ![M(d)] = @ \cup {<< d, k >>}]
              /\ pc' = [pc EXCEPT ![d] = @ + 1]
           /\ UNCHANGED << owner, cur, gen, drawn, seen >>
End(t) == /\ cur[t] # 0 /\ Over(cur[t])
          /\ cur' = [cur EXCEPT ![t] = 0]
          /\ UNCHANGED << owner, pc, gen, drawn, seen, mask, res >>
Next == \E t \in Th : Begin(t) \/ Draw(t) \/ Look(t) \/ Keep(t) \/ End(t)

Done == \A d \in Ds : Over(d)
\* every shapelet is the one a single thread draws: from the generator seeded for its dilation, knowing the shapelets before it
Deterministic == Done => \A x \in Real : res[x] = << << x[1], x[2] - 1 >>, {<< x[1], k >> : k \in 1..(x[2] - 1)} >>
\* running iterations have masks, cells and generators of their own
NoRace == \A t, u \in Th : (t # u /\ cur[t] # 0 /\ cur[u] # 0) =>
             /\ M(cur[t]) # M(cur[u]) /\ G(t) # G(u)
             /\ {Cell(cur[t], k) : k \in 1..Dil[cur[t]]} \cap {Cell(cur[u], k) : k \in 1..Dil[cur[u]]} = {}
=============================================================================
