INIT Init
NEXT Next
CONSTANTS MaxPer = 2 Classes = 2 Mutant = "count"
INVARIANTS IsPartition IsStratified
CHECK_DEADLOCK FALSE
