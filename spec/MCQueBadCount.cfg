SPECIFICATION Spec
CONSTANTS N = 2 Watch = TRUE ArgsFirst = TRUE Guard = TRUE CountLast = FALSE Locked = TRUE
INVARIANTS NoUse Alive Own Order

CHECK_DEADLOCK FALSE
