INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NS = 1
 Len0 = 5
 Lens = {3}
 Dils = {1}
 AL = 8
 Draws = 3
 Channels = 2
 Mutant = "first"
INVARIANTS Overlap Distinct FirstPlaced Separate
