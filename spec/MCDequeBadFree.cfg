SPECIFICATION Spec
CONSTANTS Thieves = {1} MaxPush = 3 MaxTake = 1 MaxSteal = 2 Size0 = 1 First = 1 TopEarly = FALSE Fence = TRUE FreeOld = TRUE
INVARIANTS Clean NoneLost
CHECK_DEADLOCK FALSE
