CONSTANTS
  Parts <- MCParts
  Rest <- MCRest
  Step <- MCStep
  Retry <- MCRetry
  Heed <- MCHeed
INIT Init
NEXT Next
INVARIANT Settled
INVARIANT Complete
CHECK_DEADLOCK FALSE
