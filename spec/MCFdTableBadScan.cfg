SPECIFICATION Spec
CONSTANTS Threads = {1,2} S = 2 Rounds = 2 Locked = TRUE Stamp = TRUE Scan1 = TRUE
INVARIANTS Unique MapsBack Answered
CHECK_DEADLOCK FALSE
