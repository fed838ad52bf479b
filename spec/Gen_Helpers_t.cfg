INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Shapes <- ShapesT
 Vals = {0, 1, 2}
 MaxT = 12
 MaxPrime = 1200
 MaxPairs = 4
INVARIANTS UniqueOK WindowsOK PairsOK
