SPECIFICATION Spec
CONSTANTS Models = 3 Cpus = 8 NFits = 2 Mutant = "shared"
INVARIANTS Budget Deterministic SameNumbers
CHECK_DEADLOCK FALSE
