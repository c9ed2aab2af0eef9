SPECIFICATION TSpec
CONSTRAINT Progress
INVARIANT ExOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
