INIT Init
NEXT Next
INVARIANT TurnsTheorems
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
