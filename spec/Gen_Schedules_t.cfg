INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NThreads = 3
 Bursts = {1, 4, 20, 90}
 MaxLen = 5
