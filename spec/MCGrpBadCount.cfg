SPECIFICATION Spec
CONSTANTS G = {11, 12} Nested = {13} W = {1, 2} OneAtATime = TRUE MainOnly = TRUE CountLocked = FALSE TakeInLoop = TRUE
INVARIANTS NoUse Own Whole
CHECK_DEADLOCK FALSE
