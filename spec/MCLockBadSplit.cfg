SPECIFICATION Spec
CONSTANTS Threads = {1,2} Rounds = 2 Split = TRUE Plain = FALSE Toggle = FALSE
INVARIANTS Mutex Counted

CHECK_DEADLOCK FALSE
