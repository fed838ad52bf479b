INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NSeries = 3
 Groups <- G1
 Mutant = "none"
INVARIANTS Deterministic NoRace
