INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 6
 Data = {"A", "B"}
 Mutant = "none"
INVARIANTS Forgets Redetects
