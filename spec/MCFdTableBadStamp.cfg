SPECIFICATION Spec
CONSTANTS Threads = {1,2} S = 2 Rounds = 2 Locked = FALSE Stamp = FALSE Scan1 = FALSE
INVARIANTS Unique MapsBack Answered
CHECK_DEADLOCK FALSE
