INIT Init
NEXT Next
INVARIANT Conforms
ALIAS Alias
CHECK_DEADLOCK FALSE
