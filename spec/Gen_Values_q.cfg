INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Sizes = {0, 1, 2, 3, 5}
 Big = {0, 1, 3}
INVARIANTS Exclusive
