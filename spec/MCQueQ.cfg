SPECIFICATION Spec
CONSTANTS N = 2 Watch = TRUE ArgsFirst = TRUE Guard = TRUE CountLast = TRUE Locked = TRUE
INVARIANTS NoUse Alive Own Order
PROPERTY Answered
CHECK_DEADLOCK FALSE
