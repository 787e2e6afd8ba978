INIT Init
NEXT Next
INVARIANTS ReadsBack
CHECK_DEADLOCK FALSE
