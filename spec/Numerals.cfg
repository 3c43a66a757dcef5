INIT Init
NEXT Next
INVARIANT AgreeTheorems
CHECK_DEADLOCK FALSE
