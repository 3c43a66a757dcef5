INIT Init
NEXT Next
INVARIANT MergeTheorems
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
