INIT Init
NEXT Next
INVARIANTS Lossless OneName FoundOut
CHECK_DEADLOCK FALSE
