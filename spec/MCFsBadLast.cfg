SPECIFICATION Spec
CONSTANTS T = {1, 2} W = 2 Ops = 5 Bad = "Last"
INVARIANTS Told
CHECK_DEADLOCK FALSE
