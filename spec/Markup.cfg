INIT Init
NEXT Next
INVARIANT MarkupTheorems
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
