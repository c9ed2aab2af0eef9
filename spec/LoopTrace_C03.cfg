SPECIFICATION TSpec
CONSTANTS U = 10000
          On = {"timer"}
CONSTRAINT Progress
INVARIANT LoopOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
