INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NThreads = 2
 Dil <- D2
 Mutant = "lateseed"
INVARIANTS Deterministic
