CONSTANTS
  SIZE = 4
  REC = 2
  NODES = 3
INIT Init
NEXT Next
INVARIANT Refines
INVARIANT Levels
INVARIANT Ends0
CHECK_DEADLOCK FALSE
