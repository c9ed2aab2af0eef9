SPECIFICATION TSpec
CONSTANTS Slack = 3
          On = {"fair", "local", "await", "sleep", "gen", "group"}
CONSTRAINT Progress
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
