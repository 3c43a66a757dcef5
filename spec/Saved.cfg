INIT Init
NEXT Next
INVARIANT SavedTheorems
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
