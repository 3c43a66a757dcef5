INIT Init
NEXT Next
INVARIANT FillTheorems
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
