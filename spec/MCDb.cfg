SPECIFICATION Spec
INVARIANTS Conservation ReadOnly RemoveReturns SearchSound TraversalComplete EntryFrame ProtStable HistStable GetAfterSet CanonIdempotent
CHECK_DEADLOCK FALSE
