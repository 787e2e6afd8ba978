INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS SavedFilesOpen FailuresKeepState OnlyRightKey LockedCopies BadRefused Determinate
ALIAS Alias
