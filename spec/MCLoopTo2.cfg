SPECIFICATION ISpec
CONSTANTS U = 1
          On = {"fd", "timeout", "timer", "alive", "signal"}
          NFd = 3
          NLoop = 1
          NTm = 0
          V = 4
          Budget = 4
          MaxClock = 5
          Feat = {"to"}
          Variant = "ok"
INVARIANTS Agree Sorted LoopOK
CHECK_DEADLOCK FALSE
