INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NSeries = 2
 Groups <- G1
 Mutant = "pergroup"
INVARIANTS Deterministic
