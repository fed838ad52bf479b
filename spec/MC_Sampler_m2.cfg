INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NS = 1
 Len0 = 9
 Lens = {3}
 Dils = {2}
 AL = 8
 Draws = 2
 Channels = 1
 Mutant = "nostep"
INVARIANTS Overlap Distinct FirstPlaced Separate
