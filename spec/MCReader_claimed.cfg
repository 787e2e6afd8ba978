SPECIFICATION Spec
CONSTANTS
  Policy = "claimed"
  Piece = 2
  Sizes = {0, 1, 2, 3, 5, 9}
  MaxRecords = 3
INVARIANT Bounded
INVARIANT Sound
PROPERTY Ends
CHECK_DEADLOCK FALSE
