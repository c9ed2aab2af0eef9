SPECIFICATION Spec
CONSTANTS N = 2 Watch = TRUE ArgsFirst = FALSE Guard = TRUE CountLast = TRUE Locked = TRUE
INVARIANTS NoUse Alive Own Order

CHECK_DEADLOCK FALSE
