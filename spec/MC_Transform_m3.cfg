INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NSeries = 1
 Groups <- G2
 Mutant = "cell"
INVARIANTS Deterministic
