INIT Init
NEXT Next
INVARIANTS Honest Caught
CHECK_DEADLOCK FALSE
