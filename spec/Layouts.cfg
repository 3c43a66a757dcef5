INIT Init
NEXT Next
INVARIANTS Distinct Sourced Chained Added Sizes
CHECK_DEADLOCK FALSE
