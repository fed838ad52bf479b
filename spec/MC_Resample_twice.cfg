INIT Init
NEXT Next
CONSTANTS MaxPer = 2 Classes = 1 Mutant = "twice"
INVARIANTS IsPartition IsStratified
CHECK_DEADLOCK FALSE
