INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NS = 1
 Len0 = 7
 Lens = {3,4}
 Dils = {1,2}
 AL = 8
 Draws = 3
 Channels = 1
 Mutant = "none"
INVARIANTS Overlap Distinct FirstPlaced Separate
