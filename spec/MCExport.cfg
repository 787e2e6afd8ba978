INIT Init
NEXT Next
INVARIANTS ReadsBack Allowed Sane
CHECK_DEADLOCK FALSE
