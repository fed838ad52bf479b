INIT Init
NEXT Next
CONSTANTS MaxPer = 2 Classes = 2 Mutant = "ok"
INVARIANTS IsPartition IsStratified Sizes
CHECK_DEADLOCK FALSE
