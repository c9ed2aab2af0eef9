SPECIFICATION Spec
CONSTANTS Threads = {1,2,3,4} Rounds = 2 Split = FALSE Plain = FALSE Toggle = FALSE
INVARIANTS Mutex Counted
CHECK_DEADLOCK FALSE
