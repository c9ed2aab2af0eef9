SPECIFICATION ISpec
CONSTANTS U = 1
          On = {"fd", "timeout", "timer", "alive", "signal"}
          NFd = 2
          NLoop = 1
          NTm = 0
          V = 4
          Budget = 4
          MaxClock = 4
          Feat = {"to"}
          Variant = "stalewheel"
INVARIANTS Agree Sorted LoopOK
CHECK_DEADLOCK FALSE
