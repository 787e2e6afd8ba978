INIT Init
NEXT Next
INVARIANTS Decides
CHECK_DEADLOCK FALSE
