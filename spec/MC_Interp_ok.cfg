INIT Init
NEXT Next
INVARIANT ShowsTheBest
CHECK_DEADLOCK FALSE
CONSTANTS Mutant = "ok"
 NS = 3
 N = 2
