INIT Init
NEXT Next
INVARIANT ShowsTheBest
CHECK_DEADLOCK FALSE
CONSTANTS Mutant = "owner"
 NS = 3
 N = 2
