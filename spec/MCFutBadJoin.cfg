SPECIFICATION Spec
CONSTANTS N = 2 OwnErr = TRUE WaitEnd = FALSE OwnHooks = TRUE ValueFirst = TRUE
INVARIANTS Own

CHECK_DEADLOCK FALSE
