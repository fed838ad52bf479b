INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NSeries = 1
 Groups <- G1
 Mutant = "shared"
INVARIANTS Deterministic
