CONSTANT SIZE = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
