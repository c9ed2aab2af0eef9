SPECIFICATION Spec
CONSTANTS N = 2 Watch = FALSE ArgsFirst = TRUE Guard = TRUE CountLast = TRUE Locked = TRUE
INVARIANTS NoUse Alive Own Order

CHECK_DEADLOCK FALSE
