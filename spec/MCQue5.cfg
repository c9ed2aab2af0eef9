SPECIFICATION Spec
CONSTANTS N = 5 Watch = TRUE ArgsFirst = TRUE Guard = TRUE CountLast = TRUE Locked = TRUE
INVARIANTS NoUse Alive Own Order

CHECK_DEADLOCK FALSE
