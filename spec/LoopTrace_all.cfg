SPECIFICATION TSpec
CONSTANTS U = 10000
          On = {"fd", "timeout", "timer", "alive", "signal"}
CONSTRAINT Progress
INVARIANT LoopOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
