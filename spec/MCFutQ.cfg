SPECIFICATION Spec
CONSTANTS N = 2 OwnErr = TRUE WaitEnd = TRUE OwnHooks = TRUE ValueFirst = TRUE
INVARIANTS Own Joined DoneAfter
PROPERTY Answered
CHECK_DEADLOCK FALSE
