SPECIFICATION Spec
CONSTANTS N = 2 Watch = TRUE ArgsFirst = TRUE Guard = TRUE CountLast = TRUE Locked = FALSE
INVARIANTS NoUse Alive Own Order

CHECK_DEADLOCK FALSE
