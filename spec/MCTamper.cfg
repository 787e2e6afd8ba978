INIT Init
NEXT Next
INVARIANT Unchanged
INVARIANT RefusedEarly
INVARIANT OriginalRead
CHECK_DEADLOCK FALSE
