INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS NS = 1
 Len0 = 7
 Lens = {3,4}
 Dils = {1,2}
 AL = 8
 Draws = 2
 Channels = 1
 Mutant = "oneside"
INVARIANTS Overlap Distinct FirstPlaced Separate
