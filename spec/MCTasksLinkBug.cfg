SPECIFICATION ISpec
CONSTANTS N = 3
          Budget = 2
          MaxClock = 2
          Ghost = FALSE
          LinkBug = TRUE
          Slack = 0
          On = {"fair", "sleep", "await", "gen", "group"}
INVARIANTS NoneLost ParkedLinked SortedSleep PollerOnce ContractInv
CHECK_DEADLOCK FALSE
