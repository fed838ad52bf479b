INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Pairs = 4 MaxP = 12 Mutant = "offbyone"
INVARIANTS Agrees
