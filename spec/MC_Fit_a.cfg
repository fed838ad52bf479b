INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NThreads = 2
 Dil <- D1
 Mutant = "none"
INVARIANTS Deterministic NoRace
