INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Ints = {2, 3, 4, 6, 9, 13}
 Fracs = {1, 3, 4, 8, 12, 16, 20}
 Reds = {0, 1, 4, 5, 8, 12, 15}
 Ms = {3, 4, 6, 9, 16}
INVARIANTS Fits Reduces NotEmpty
