SPECIFICATION TSpec
CONSTANTS Slack = 3
          On = {"fair", "local"}
CONSTRAINT Progress
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
