INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NSeries = 2
 Groups <- G2
 Mutant = "none"
INVARIANTS Deterministic NoRace
