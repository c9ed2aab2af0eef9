SPECIFICATION Live
CONSTANTS N = 3
          Budget = 2
          MaxClock = 1
          Ghost = FALSE
          LinkBug = FALSE
          Slack = 0
          On = {"fair", "sleep", "await", "gen", "group"}
INVARIANTS NoneLost ParkedLinked SortedSleep PollerOnce
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
