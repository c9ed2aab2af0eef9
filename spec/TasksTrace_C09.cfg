SPECIFICATION TSpec
CONSTANTS Slack = 3
          On = {"gen", "local"}
CONSTRAINT Progress
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
