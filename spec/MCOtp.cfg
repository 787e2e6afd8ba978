INIT Init
NEXT Next
INVARIANTS ReadsBack AnyOrder Absent Settled New
CHECK_DEADLOCK FALSE
