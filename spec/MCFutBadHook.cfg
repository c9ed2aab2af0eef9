SPECIFICATION Spec
CONSTANTS N = 2 OwnErr = TRUE WaitEnd = TRUE OwnHooks = FALSE ValueFirst = TRUE
INVARIANTS Own

CHECK_DEADLOCK FALSE
