SPECIFICATION TSpec
CONSTANTS U = 10000
          On = {"fd"}
CONSTRAINT Progress
INVARIANT LoopOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
