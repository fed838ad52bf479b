INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Shapes <- ShapesQ
 Vals = {0, 1, 2}
 MaxT = 7
 MaxPrime = 200
 MaxPairs = 3
INVARIANTS UniqueOK WindowsOK PairsOK
