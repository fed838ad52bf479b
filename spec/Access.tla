------------------------------- MODULE Access -------------------------------
(* Memory accesses of the iterations of a parallel loop: iteration i reads the cells of r[i], writes w[i].     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* no iteration touches a cell another one writes
Apart(a, b) == Range(a.w) \cap (Range(b.w) \cup Range(b.r)) = {}
ConflictFree(loop) == \A i, j \in DOMAIN loop : i # j => Apart(loop[i], loop[j])
=============================================================================
