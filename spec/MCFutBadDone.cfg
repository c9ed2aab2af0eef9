SPECIFICATION Spec
CONSTANTS N = 2 OwnErr = TRUE WaitEnd = TRUE OwnHooks = TRUE ValueFirst = FALSE
INVARIANTS DoneAfter

CHECK_DEADLOCK FALSE
