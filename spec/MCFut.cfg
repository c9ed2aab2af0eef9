SPECIFICATION Spec
CONSTANTS N = 3 OwnErr = TRUE WaitEnd = TRUE OwnHooks = TRUE ValueFirst = TRUE
INVARIANTS Own Joined DoneAfter

CHECK_DEADLOCK FALSE
