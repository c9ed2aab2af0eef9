SPECIFICATION Spec
CONSTANTS Threads = {1,2,3} Rounds = 2 Split = FALSE Plain = FALSE Toggle = FALSE
INVARIANTS Mutex Counted
PROPERTY AllServed
CHECK_DEADLOCK FALSE
