SPECIFICATION TSpec
CONSTANTS Handle = {0, 1, 2, 3}
          Value = {}
          MaxLen = 100000
          MaxCap = 1000000
          Caps <- TraceCaps
CONSTRAINT Progress
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
