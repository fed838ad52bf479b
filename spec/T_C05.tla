------------------------------- MODULE T_C05 -------------------------------
(* Recorded fits replayed as behaviours of the sampler: shapelet after shapelet is placed on a free position  *)
(* and marks its surroundings; a fit that placed one on a marked position has no such behaviour.              *)
EXTENDS Trace, Sampler
VARIABLES c, i, marks, bad

\* smallest length known to be drawn with dilation d: the reserve it gives is never below the real one
MinDrawn(f, d) == MinSet({f.shp[s].l : s \in {s \in 1..Len(f.shp) : f.shp[s].d = d}})

Place(f, sh) ==
  LET src == Sources(f, sh)
  IN IF Cardinality(src) # 1 THEN << marks, bad >>         \* the window is not known for sure: not judged
     ELSE LET w == CHOOSE w \in src : TRUE
              n == SLen(f.X[w[1]])
              chs == Range(sh.ch)
              ok == (w[2] - 1) \in Free(marks, Uni(f), sh.nm, sh.d, w[1], chs, f.al, NWin(n, sh.l, sh.d, f.phase))
          IN << AddMarks(marks, sh.nm, sh.d, w[1], chs, w[2] - 1, sh.l, f.al, MinDrawn(f, sh.d), n),
                bad \o (IF ok THEN "" ELSE " overlap:shapelet" \o ToString(i)) >>

\* could a shapelet have found no free position?  The most any dropped one can have been up against: all marks of its
\* dilation and flag, made with the smallest allowed length as the smallest drawn, and any channels and length.
MaxMarks(f) ==
  FoldLeft(LAMBDA m, sh :
     UNION {LET n == SLen(f.X[w[1]])
            IN AddMarks(m, sh.nm, sh.d, w[1], Range(sh.ch), w[2] - 1, sh.l, f.al, MinSeq(f.lens), n)
            : w \in Sources(f, sh)}, {}, f.shp)
Exhausted(f) ==
  LET m == MaxMarks(f)
  IN \E s \in 1..Len(f.shp) : \E l \in Range(f.lens) :
       \E chs \in {z \in SUBSET (1..Len(f.X[1])) : Cardinality(z) \in 1..f.maxch} :
          \A x \in 1..N(f) :
             Free(m, Uni(f), f.shp[s].nm, f.shp[s].d, x, chs, f.al, NWin(SLen(f.X[x]), l, f.shp[s].d, f.phase)) = {}

Init == c \in 1..Len(T) /\ i = 1 /\ marks = {} /\ bad = ""
Step == /\ i > 0 /\ T[c].error = "" /\ i <= Len(T[c].shp)
        /\ LET r == Place(T[c], T[c].shp[i]) IN marks' = r[1] /\ bad' = r[2]
        /\ i' = i + 1 /\ UNCHANGED c
End == /\ i > 0 /\ (IF T[c].error # "" THEN TRUE ELSE i = Len(T[c].shp) + 1)
       /\ i' = 0 /\ UNCHANGED << c, marks, bad >>
       /\ Verdict(T[c], IF T[c].error # "" THEN " raised"
                        ELSE IF Len(T[c].shp) < T[c].n /\ T[c].nonzero /\ ~Exhausted(T[c]) THEN bad \o " dropped"
                        ELSE bad)
Next == Step \/ End
=============================================================================
