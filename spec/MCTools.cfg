INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS OnlyOutputWritten NothingForStrangers AlwaysForOwners NeverPanics Determinate
