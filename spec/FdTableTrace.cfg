SPECIFICATION TSpec
CONSTANT N = 256
CONSTRAINT Progress
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
