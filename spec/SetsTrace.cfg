INIT Init
NEXT Next
POSTCONDITION Done
VIEW Seen
CHECK_DEADLOCK FALSE
