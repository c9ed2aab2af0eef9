SPECIFICATION Spec
CONSTANTS Threads = {1,2,3} Rounds = 2 Split = FALSE Plain = FALSE Toggle = TRUE
INVARIANTS Mutex Counted

CHECK_DEADLOCK FALSE
