INIT Init
NEXT Next
INVARIANTS Back Text Iso
CHECK_DEADLOCK FALSE
