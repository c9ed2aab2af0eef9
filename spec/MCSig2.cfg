SPECIFICATION SSpec
CONSTANTS U = 1
          On = {"signal"}
          NS = 4
          NLoop = 2
          Slots = 3
          Budget = 6
          Variant = "code"
INVARIANTS Alive Agree LoopOK
CHECK_DEADLOCK FALSE
