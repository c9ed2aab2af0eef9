SPECIFICATION Spec
CONSTANTS N = 2 OwnErr = FALSE WaitEnd = TRUE OwnHooks = TRUE ValueFirst = TRUE
INVARIANTS Own

CHECK_DEADLOCK FALSE
