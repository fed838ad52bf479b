INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NS = 2
 Len0 = 6
 Lens = {3}
 Dils = {1,2}
 AL = 4
 Draws = 2
 Channels = 1
 Mutant = "none"
INVARIANTS Overlap Distinct FirstPlaced Separate
