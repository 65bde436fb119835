CONSTANTS
  SIZE = 4
  REC = 2
  NODES = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
