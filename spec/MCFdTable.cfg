SPECIFICATION Spec
CONSTANTS Threads = {1,2,3} S = 3 Rounds = 2 Locked = TRUE Stamp = TRUE Scan1 = FALSE
INVARIANTS Unique MapsBack Answered
CHECK_DEADLOCK FALSE
