INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 5
 Data = {"A", "B", "C"}
 Mutant = "none"
INVARIANTS Forgets Redetects
