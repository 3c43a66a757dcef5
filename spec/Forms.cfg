INIT Init
NEXT Next
INVARIANT FormTheorems
CHECK_DEADLOCK FALSE
