SPECIFICATION TSpec
CONSTANTS Slack = 3
          On = {"await", "local"}
CONSTRAINT Progress
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
