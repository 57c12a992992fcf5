SPECIFICATION ESpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
