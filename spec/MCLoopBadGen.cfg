SPECIFICATION ISpec
CONSTANTS U = 1
          On = {"fd", "timeout", "timer", "alive", "signal"}
          NFd = 2
          NLoop = 1
          NTm = 0
          V = 4
          Budget = 5
          MaxClock = 0
          Feat = {"fd"}
          Variant = "nogen"
INVARIANTS Agree Sorted LoopOK
CHECK_DEADLOCK FALSE
