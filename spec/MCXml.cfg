INIT Init
NEXT Next
INVARIANT ReadsBack
INVARIANT Offsets
INVARIANT PlainIsGood
INVARIANT ProtCount
CHECK_DEADLOCK FALSE
