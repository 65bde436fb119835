CONSTANTS
  SIZE = 3
  REC = 2
  NODES = 2
INIT Init
NEXT Next
INVARIANT Refines
INVARIANT Levels
INVARIANT Ends0
CHECK_DEADLOCK FALSE
