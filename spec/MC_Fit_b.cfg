INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NThreads = 3
 Dil <- D3
 Mutant = "none"
INVARIANTS Deterministic NoRace
