SPECIFICATION Spec
CONSTANTS G = {11} Nested = {13} W = {1, 2} OneAtATime = TRUE MainOnly = TRUE CountLocked = TRUE TakeInLoop = TRUE
INVARIANTS NoUse Own Whole
PROPERTY Waited
CHECK_DEADLOCK FALSE
