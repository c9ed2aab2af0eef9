SPECIFICATION TSpec
CONSTANTS U = 10000
          On = {"signal"}
CONSTRAINT Progress
INVARIANT LoopOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
