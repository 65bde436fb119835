CONSTANTS
  SIZE = 5
  REC = 3
  NODES = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
