---------------------------- MODULE MC_Transform ----------------------------
(* The parallel transform.  Shapelets are grouped by (length, dilation).  The iterations of the parallel loop *)
(* are the series (and, inside, the groups); each builds the windows of its series for its group in a buffer, *)
(* applies the raw shapelets to it, then z-normalises the buffer in place and applies the others.  Threads    *)
(* interleave at every access to memory.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSeries, Groups, Mutant      \* Groups: sequence of sequences of <<shapelet, normalised?>>
G1 == << << <<1, FALSE>>, <<2, TRUE>> >>, << <<3, TRUE>>, <<4, FALSE>> >> >>
G2 == << << <<1, TRUE>>, <<2, FALSE>>, <<4, TRUE>> >>, << <<3, FALSE>> >> >>
VARIABLES pc, buf, out

Tasks == (1..NSeries) \X (1..Len(Groups))
Raw(g) == SelectSeq(Groups[g], LAMBDA s : ~s[2])
Nrm(g) == SelectSeq(Groups[g], LAMBDA s : s[2])
All == UNION {{Groups[g][k][1] : k \in 1..Len(Groups[g])} : g \in 1..Len(Groups)}
GroupOf(s) == CHOOSE g \in 1..Len(Groups) : \E k \in 1..Len(Groups[g]) : Groups[g][k][1] = s
IsNorm(s) == \E g \in 1..Len(Groups) : \E k \in 1..Len(Groups[g]) : Groups[g][k] = <<s, TRUE>>

\* the buffer a task works in: its own, or (broken) one for all, one per group
B(t) == CASE Mutant = "shared" -> <<0, 0>> [] Mutant = "pergroup" -> <<0, t[2]>> [] OTHER -> t
\* the cell it writes: its own, or (broken) the position within the group
Cell(t, sh, k) == CASE Mutant = "cell" -> <<t[1], k>> [] OTHER -> <<t[1], sh>>

Init == /\ pc = [t \in Tasks |-> <<"build", 0>>]
        /\ buf = [b \in {B(t) : t \in Tasks} |-> <<0, 0, FALSE>>]
        /\ out = [c \in (1..NSeries) \X All |-> <<>>]

Build(t) == /\ pc[t][1] = "build"
            /\ buf' = [buf EXCEPT ![B(t)] = <<t[1], t[2], FALSE>>]
            /\ pc' = [pc EXCEPT ![t] = IF Mutant = "normfirst" THEN <<"norm", 0>> ELSE <<"raw", 1>>]
            /\ UNCHANGED out
RawStep(t) == /\ pc[t][1] = "raw"
              /\ LET k == pc[t][2]
                 IN IF k > Len(Raw(t[2])) THEN /\ pc' = [pc EXCEPT ![t] = IF Mutant = "normfirst" THEN <<"done", 0>> ELSE <<"norm", 0>>]
                                               /\ UNCHANGED out
                    ELSE /\ out' = [out EXCEPT ![Cell(t, Raw(t[2])[k][1], k)] = buf[B(t)]]
                         /\ pc' = [pc EXCEPT ![t] = <<"raw", k + 1>>]
              /\ UNCHANGED buf
Norm(t) == /\ pc[t][1] = "norm"
           /\ buf' = IF Len(Nrm(t[2])) > 0 THEN [buf EXCEPT ![B(t)][3] = TRUE] ELSE buf
           /\ pc' = [pc EXCEPT ![t] = <<"nrm", 1>>] /\ UNCHANGED out
NrmStep(t) == /\ pc[t][1] = "nrm"
              /\ LET k == pc[t][2]
                 IN IF k > Len(Nrm(t[2])) THEN /\ pc' = [pc EXCEPT ![t] = IF Mutant = "normfirst" THEN <<"raw", 1>> ELSE <<"done", 0>>]
                                               /\ UNCHANGED out
                    ELSE /\ out' = [out EXCEPT ![Cell(t, Nrm(t[2])[k][1], k)] = buf[B(t)]]
                         /\ pc' = [pc EXCEPT ![t] = <<"nrm", k + 1>>]
              /\ UNCHANGED buf
Next == \E t \in Tasks : Build(t) \/ RawStep(t) \/ Norm(t) \/ NrmStep(t)

Done == \A t \in Tasks : pc[t][1] = "done"
\* every cell holds the windows of its own series for its own shapelet, normalised when and only when flagged
Deterministic == Done => \A s \in 1..NSeries : \A k \in All : out[<<s, k>>] = <<s, GroupOf(k), IsNorm(k)>>
\* no iteration touches memory another one may be writing
NoRace == \A t, u \in Tasks : (t # u /\ pc[t][1] # "done" /\ pc[u][1] # "done" /\ pc[t][1] # "build" /\ pc[u][1] # "build") => B(t) # B(u)
=============================================================================
