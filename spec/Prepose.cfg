INIT Init
NEXT Next
INVARIANT PreposeTheorems
CHECK_DEADLOCK FALSE
