SPECIFICATION TSpec
CONSTANTS Slack = 3
          On = {"group", "local"}
CONSTRAINT Progress
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
