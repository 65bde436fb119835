CONSTANT SIZE = 5
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
