SPECIFICATION ISpec
CONSTANTS U = 1
          On = {"fd", "timeout", "timer", "alive", "signal"}
          NFd = 0
          NLoop = 1
          NTm = 3
          V = 4
          Budget = 6
          MaxClock = 2
          Feat = {"tm"}
          Variant = "ok"
INVARIANTS Agree Sorted LoopOK
CHECK_DEADLOCK FALSE
