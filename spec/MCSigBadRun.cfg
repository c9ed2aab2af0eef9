SPECIFICATION SSpec
CONSTANTS U = 1
          On = {"signal"}
          NS = 3
          NLoop = 2
          Slots = 3
          Budget = 5
          Variant = "allrun"
INVARIANTS Alive Agree LoopOK
CHECK_DEADLOCK FALSE
